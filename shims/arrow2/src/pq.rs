//! Stand-in for `parquet2` (re-exported by the crate of that name): pages,
//! column chunks, row groups and a footer in a format of its own.
use crate::array::scalar::Scalar;
use crate::datatypes::{DataType, Field, Schema};
use std::io::{Read, Seek, SeekFrom, Write};

pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub enum Error {
        OutOfSpec(String),
        FeatureNotSupported(String),
        Transport(String),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error {
        fn from(e: std::io::Error) -> Self {
            Error::Transport(format!("underlying IO error: {e}"))
        }
    }
    impl From<Error> for crate::error::Error {
        fn from(e: Error) -> Self {
            crate::error::Error::ExternalFormat(e.to_string())
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
}
use error::{Error, Result};

pub mod compression {
    use super::error::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct ZstdLevel(i32);
    impl ZstdLevel {
        pub fn try_new(l: i32) -> Result<Self> {
            if (1..=22).contains(&l) {
                Ok(Self(l))
            } else {
                Err(Error::OutOfSpec(format!("valid compression range is 1..=22, got {l}")))
            }
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CompressionOptions {
        Uncompressed,
        Snappy,
        Zstd(Option<ZstdLevel>),
    }
}
pub mod encoding {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Encoding {
        Plain,
        RleDictionary,
    }
}
pub mod schema {
    pub mod types {
        use serde::{Deserialize, Serialize};
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
        pub enum PhysicalType {
            Boolean,
            Int32,
            Int64,
            Int96,
            Float,
            Double,
            ByteArray,
            FixedLenByteArray(usize),
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct PrimitiveType {
            pub name: String,
            pub physical_type: PhysicalType,
            pub(crate) arrow: super::super::DataType,
        }
        #[derive(Debug, Clone, PartialEq)]
        pub struct ParquetType {
            pub(crate) field: super::super::Field,
        }
    }
}
use schema::types::*;

pub(crate) fn physical_of(dt: &DataType) -> PhysicalType {
    use DataType::*;
    match dt {
        Boolean => PhysicalType::Boolean,
        Int8 | Int16 | Int32 | UInt8 | UInt16 | UInt32 | Date32 | Time32(_) => PhysicalType::Int32,
        Int64 | UInt64 | Date64 | Time64(_) | Timestamp(_, _) | Duration(_) => PhysicalType::Int64,
        Float32 => PhysicalType::Float,
        Float64 => PhysicalType::Double,
        Utf8 | LargeUtf8 | Binary | LargeBinary => PhysicalType::ByteArray,
        FixedSizeBinary(n) => PhysicalType::FixedLenByteArray(*n),
        Decimal(p, _) if *p <= 9 => PhysicalType::Int32,
        Decimal(p, _) if *p <= 18 => PhysicalType::Int64,
        Decimal(_, _) => PhysicalType::FixedLenByteArray(16),
        List(f) | LargeList(f) => physical_of(&f.data_type),
        d => unimplemented!("{d:?}"),
    }
}

pub mod metadata {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Descriptor {
        pub primitive_type: PrimitiveType,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct ColumnDescriptor {
        pub descriptor: Descriptor,
        pub path_in_schema: Vec<String>,
        pub base_type: ParquetType,
    }
    impl ColumnDescriptor {
        pub(crate) fn of(f: &Field) -> Self {
            let leaf = match &f.data_type {
                DataType::List(i) | DataType::LargeList(i) => i.data_type.clone(),
                d => d.clone(),
            };
            let path_in_schema = match &f.data_type {
                DataType::List(i) | DataType::LargeList(i) => {
                    vec![f.name.clone(), "list".to_string(), i.name.clone()]
                }
                _ => vec![f.name.clone()],
            };
            Self {
                descriptor: Descriptor {
                    primitive_type: PrimitiveType {
                        name: path_in_schema.last().unwrap().clone(),
                        physical_type: physical_of(&leaf),
                        arrow: leaf,
                    },
                },
                path_in_schema,
                base_type: ParquetType { field: f.clone() },
            }
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct SchemaDescriptor {
        pub(crate) fields: Vec<Field>,
        leaves: Vec<ColumnDescriptor>,
    }
    impl SchemaDescriptor {
        pub(crate) fn of(s: &Schema) -> Self {
            Self { leaves: s.fields.iter().map(ColumnDescriptor::of).collect(), fields: s.fields.clone() }
        }
        pub fn columns(&self) -> &[ColumnDescriptor] {
            &self.leaves
        }
    }
    #[derive(Debug, Clone)]
    pub struct ColumnChunkMetaData {
        pub(crate) descriptor: ColumnDescriptor,
        pub(crate) pages: Vec<PageMeta>,
    }
    impl ColumnChunkMetaData {
        pub fn descriptor(&self) -> &ColumnDescriptor {
            &self.descriptor
        }
        pub fn num_values(&self) -> i64 {
            self.pages.iter().map(|p| p.num_values as i64).sum()
        }
    }
    #[derive(Debug, Clone)]
    pub struct RowGroupMetaData {
        pub(crate) columns: Vec<ColumnChunkMetaData>,
        pub(crate) num_rows: usize,
    }
    impl RowGroupMetaData {
        pub fn columns(&self) -> &[ColumnChunkMetaData] {
            &self.columns
        }
        pub fn num_rows(&self) -> usize {
            self.num_rows
        }
    }
    #[derive(Debug, Clone)]
    pub struct FileMetaData {
        pub num_rows: usize,
        pub row_groups: Vec<RowGroupMetaData>,
        pub(crate) schema_descr: SchemaDescriptor,
    }
    impl FileMetaData {
        pub fn schema(&self) -> &SchemaDescriptor {
            &self.schema_descr
        }
    }
    #[derive(Debug, Clone, PartialEq)]
    pub struct KeyValue {
        pub key: String,
        pub value: Option<String>,
    }
}
use metadata::*;
use serde::{Deserialize, Serialize};

/// Statistics of a page: minimum and maximum of its non-null values.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct PageStats {
    pub(crate) dt: DataType,
    pub(crate) null_count: usize,
    pub(crate) min: Scalar,
    pub(crate) max: Scalar,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PageMeta {
    offset: u64,
    len: u64,
    crc: u32,
    pub(crate) num_values: usize,
    pub(crate) num_rows: usize,
    pub(crate) stats: Option<PageStats>,
}
#[derive(Serialize, Deserialize)]
struct Footer {
    fields: Vec<Field>,
    groups: Vec<(usize, Vec<Vec<PageMeta>>)>,
}

pub mod statistics {
    use super::*;
    use std::any::Any;
    pub trait Statistics: Send + Sync + std::fmt::Debug {
        fn as_any(&self) -> &dyn Any;
        fn physical_type(&self) -> &PhysicalType;
    }
    #[derive(Debug, Clone)]
    pub struct PrimitiveStatistics<T> {
        pub physical_type: PhysicalType,
        pub min_value: Option<T>,
        pub max_value: Option<T>,
    }
    impl<T: Send + Sync + std::fmt::Debug + 'static> Statistics for PrimitiveStatistics<T> {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &self.physical_type
        }
    }
    macro_rules! bytes_stats {
        ($n:ident) => {
            #[derive(Debug, Clone)]
            pub struct $n {
                pub physical_type: PhysicalType,
                pub min_value: Option<Vec<u8>>,
                pub max_value: Option<Vec<u8>>,
            }
            impl Statistics for $n {
                fn as_any(&self) -> &dyn Any {
                    self
                }
                fn physical_type(&self) -> &PhysicalType {
                    &self.physical_type
                }
            }
        };
    }
    bytes_stats!(BinaryStatistics);
    bytes_stats!(FixedLenStatistics);
    #[derive(Debug, Clone)]
    pub struct BooleanStatistics {
        pub min_value: Option<bool>,
        pub max_value: Option<bool>,
    }
    impl Statistics for BooleanStatistics {
        fn as_any(&self) -> &dyn Any {
            self
        }
        fn physical_type(&self) -> &PhysicalType {
            &PhysicalType::Boolean
        }
    }
    pub(super) fn of(s: &PageStats) -> std::sync::Arc<dyn Statistics> {
        let pt = physical_of(&s.dt);
        fn le<const N: usize>(s: &Scalar) -> Option<[u8; N]> {
            match s {
                Scalar::Prim(r) => {
                    let mut b = [0u8; N];
                    b.copy_from_slice(&r[..N]);
                    Some(b)
                }
                _ => None,
            }
        }
        fn int(dt: &DataType, s: &Scalar) -> Option<i64> {
            Some(match dt {
                DataType::Int8 => i8::from_le_bytes(le::<1>(s)?) as i64,
                DataType::UInt8 => u8::from_le_bytes(le::<1>(s)?) as i64,
                DataType::Int16 => i16::from_le_bytes(le::<2>(s)?) as i64,
                DataType::UInt16 => u16::from_le_bytes(le::<2>(s)?) as i64,
                DataType::Int32 | DataType::UInt32 | DataType::Date32 | DataType::Time32(_) => {
                    i32::from_le_bytes(le::<4>(s)?) as i64
                }
                DataType::Decimal(_, _) => i128::from_le_bytes(le::<16>(s)?) as i64,
                _ => i64::from_le_bytes(le::<8>(s)?),
            })
        }
        let bytes = |s: &Scalar| match s {
            Scalar::Bytes(b) => Some(b.clone()),
            Scalar::Prim(r) => Some(i128::from_le_bytes(*r).to_be_bytes().to_vec()),
            _ => None,
        };
        match pt {
            PhysicalType::Int32 => std::sync::Arc::new(PrimitiveStatistics::<i32> {
                physical_type: pt,
                min_value: int(&s.dt, &s.min).map(|v| v as i32),
                max_value: int(&s.dt, &s.max).map(|v| v as i32),
            }),
            PhysicalType::Int64 => std::sync::Arc::new(PrimitiveStatistics::<i64> {
                physical_type: pt,
                min_value: int(&s.dt, &s.min),
                max_value: int(&s.dt, &s.max),
            }),
            PhysicalType::Float => std::sync::Arc::new(PrimitiveStatistics::<f32> {
                physical_type: pt,
                min_value: le::<4>(&s.min).map(f32::from_le_bytes),
                max_value: le::<4>(&s.max).map(f32::from_le_bytes),
            }),
            PhysicalType::Double => std::sync::Arc::new(PrimitiveStatistics::<f64> {
                physical_type: pt,
                min_value: le::<8>(&s.min).map(f64::from_le_bytes),
                max_value: le::<8>(&s.max).map(f64::from_le_bytes),
            }),
            PhysicalType::ByteArray => std::sync::Arc::new(BinaryStatistics {
                physical_type: pt,
                min_value: bytes(&s.min),
                max_value: bytes(&s.max),
            }),
            PhysicalType::FixedLenByteArray(_) | PhysicalType::Int96 => std::sync::Arc::new(FixedLenStatistics {
                physical_type: pt,
                min_value: bytes(&s.min),
                max_value: bytes(&s.max),
            }),
            PhysicalType::Boolean => std::sync::Arc::new(BooleanStatistics {
                min_value: if let Scalar::Bool(b) = s.min { Some(b) } else { None },
                max_value: if let Scalar::Bool(b) = s.max { Some(b) } else { None },
            }),
        }
    }
}

pub mod page {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct DataPage {
        pub(crate) data: Vec<u8>,
        pub(crate) num_values: usize,
        pub(crate) num_rows: usize,
        pub(crate) stats: Option<PageStats>,
    }
    impl DataPage {
        pub(crate) fn decode(&self) -> Result<Vec<Scalar>> {
            bincode::deserialize(&self.data).map_err(|e| Error::OutOfSpec(e.to_string()))
        }
        pub fn num_values(&self) -> usize {
            self.num_values
        }
    }
    #[derive(Debug, Clone)]
    pub enum Page {
        Data(DataPage),
        Dict(()),
    }
    #[derive(Debug, Clone)]
    pub struct CompressedDataPage(pub(crate) DataPage);
    impl CompressedDataPage {
        pub fn num_values(&self) -> usize {
            self.0.num_values
        }
        pub fn statistics(&self) -> Option<Result<std::sync::Arc<dyn statistics::Statistics>>> {
            self.0.stats.as_ref().map(|s| Ok(statistics::of(s)))
        }
        pub fn uncompressed_size(&self) -> usize {
            self.0.data.len()
        }
        pub fn compressed_size(&self) -> usize {
            self.0.data.len()
        }
    }
    #[derive(Debug, Clone)]
    pub enum CompressedPage {
        Data(CompressedDataPage),
        Dict(()),
    }
    impl CompressedPage {
        pub fn num_values(&self) -> usize {
            match self {
                CompressedPage::Data(p) => p.num_values(),
                _ => 0,
            }
        }
    }
}
use page::*;

const MAGIC: &[u8; 4] = b"PAR1";

pub mod read {
    use super::*;
    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
        let size = r.seek(SeekFrom::End(0))?;
        if size < 12 {
            return Err(Error::OutOfSpec("A parquet file must contain a header and footer".into()));
        }
        r.seek(SeekFrom::End(-12))?;
        let mut tail = [0u8; 12];
        r.read_exact(&mut tail)?;
        if &tail[8..] != MAGIC {
            return Err(Error::OutOfSpec("Invalid Parquet file. Corrupt footer".into()));
        }
        let len = u32::from_le_bytes(tail[0..4].try_into().unwrap()) as u64;
        let crc = u32::from_le_bytes(tail[4..8].try_into().unwrap());
        if len + 16 > size {
            return Err(Error::OutOfSpec("The footer size must be smaller or equal to the file's size".into()));
        }
        r.seek(SeekFrom::End(-12 - len as i64))?;
        let mut buf = vec![0u8; len as usize];
        r.read_exact(&mut buf)?;
        if crc32fast::hash(&buf) != crc {
            return Err(Error::OutOfSpec("Invalid Parquet file. Corrupt footer".into()));
        }
        let f: Footer = bincode::deserialize(&buf).map_err(|e| Error::OutOfSpec(e.to_string()))?;
        let schema_descr = SchemaDescriptor::of(&Schema::from(f.fields));
        let row_groups = f
            .groups
            .into_iter()
            .map(|(num_rows, cols)| RowGroupMetaData {
                num_rows,
                columns: cols
                    .into_iter()
                    .zip(schema_descr.columns())
                    .map(|(pages, d)| ColumnChunkMetaData { descriptor: d.clone(), pages })
                    .collect(),
            })
            .collect::<Vec<_>>();
        Ok(FileMetaData { num_rows: row_groups.iter().map(|g| g.num_rows).sum(), row_groups, schema_descr })
    }
    pub(crate) fn read_page<R: Read + Seek>(r: &mut R, m: &PageMeta) -> Result<CompressedPage> {
        r.seek(SeekFrom::Start(m.offset))?;
        let mut data = vec![0u8; m.len as usize];
        r.read_exact(&mut data)?;
        if crc32fast::hash(&data) != m.crc {
            return Err(Error::OutOfSpec("corrupt page".into()));
        }
        Ok(CompressedPage::Data(CompressedDataPage(DataPage {
            data,
            num_values: m.num_values,
            num_rows: m.num_rows,
            stats: m.stats.clone(),
        })))
    }
    pub type PageFilter = ();
    pub fn get_page_iterator<R: Read + Seek>(
        column: &ColumnChunkMetaData,
        reader: R,
        _filter: Option<PageFilter>,
        _scratch: Vec<u8>,
        max_page_size: usize,
    ) -> Result<std::vec::IntoIter<Result<CompressedPage>>> {
        let mut reader = reader;
        Ok(column
            .pages
            .iter()
            .map(|m| {
                if m.len as usize > max_page_size {
                    return Err(Error::OutOfSpec("WouldOverAllocate".into()));
                }
                read_page(&mut reader, m)
            })
            .collect::<Vec<_>>()
            .into_iter())
    }
    pub fn decompress(p: CompressedPage, _buf: &mut Vec<u8>) -> Result<Page> {
        Ok(match p {
            CompressedPage::Data(d) => Page::Data(d.0),
            CompressedPage::Dict(_) => Page::Dict(()),
        })
    }
}
pub mod write {
    use super::*;
    pub use super::compression::CompressionOptions;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum Version {
        V1,
        V2,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WriteOptions {
        pub write_statistics: bool,
        pub version: Version,
    }
    pub fn compress(p: Page, _buf: Vec<u8>, _c: CompressionOptions) -> Result<CompressedPage> {
        Ok(match p {
            Page::Data(d) => CompressedPage::Data(CompressedDataPage(d)),
            Page::Dict(_) => CompressedPage::Dict(()),
        })
    }
    /// Writes a file page by page.
    pub struct FileSeqWriter<W: Write> {
        w: W,
        schema: SchemaDescriptor,
        offset: u64,
        groups: Vec<(usize, Vec<Vec<PageMeta>>)>,
        columns: Vec<Vec<PageMeta>>,
        pages: Vec<PageMeta>,
        stats: bool,
        done: bool,
    }
    impl<W: Write> FileSeqWriter<W> {
        pub fn new(w: W, schema: SchemaDescriptor, o: WriteOptions, _created_by: Option<String>) -> Self {
            Self {
                w,
                schema,
                offset: 0,
                groups: vec![],
                columns: vec![],
                pages: vec![],
                stats: o.write_statistics,
                done: false,
            }
        }
        fn start(&mut self) -> Result<()> {
            if self.offset == 0 {
                self.w.write_all(MAGIC)?;
                self.offset = 4;
            }
            Ok(())
        }
        pub fn write_page(&mut self, p: &CompressedPage) -> Result<()> {
            self.start()?;
            let d = match p {
                CompressedPage::Data(d) => &d.0,
                _ => return Err(Error::FeatureNotSupported("dict page".into())),
            };
            self.w.write_all(&d.data)?;
            self.pages.push(PageMeta {
                offset: self.offset,
                len: d.data.len() as u64,
                crc: crc32fast::hash(&d.data),
                num_values: d.num_values,
                num_rows: d.num_rows,
                stats: if self.stats { d.stats.clone() } else { None },
            });
            self.offset += d.data.len() as u64;
            Ok(())
        }
        pub fn end_column(&mut self) -> Result<()> {
            self.columns.push(std::mem::take(&mut self.pages));
            Ok(())
        }
        pub fn end_row_group(&mut self) -> Result<()> {
            let cols = std::mem::take(&mut self.columns);
            if cols.len() != self.schema.columns().len() {
                return Err(Error::OutOfSpec("The number of columns in the row group is different from the schema".into()));
            }
            let n = cols.first().map(|c| c.iter().map(|p| p.num_rows).sum()).unwrap_or(0);
            self.groups.push((n, cols));
            Ok(())
        }
        pub fn end(&mut self, _kv: Option<Vec<KeyValue>>) -> Result<u64> {
            self.start()?;
            assert!(!self.done);
            self.done = true;
            let f = Footer { fields: self.schema.fields.clone(), groups: std::mem::take(&mut self.groups) };
            let buf = bincode::serialize(&f).unwrap();
            self.w.write_all(&buf)?;
            self.w.write_all(&(buf.len() as u32).to_le_bytes())?;
            self.w.write_all(&crc32fast::hash(&buf).to_le_bytes())?;
            self.w.write_all(MAGIC)?;
            self.w.flush()?;
            Ok(self.offset + buf.len() as u64 + 12)
        }
    }
}

pub mod read {
    use crate::array::{scalar, Array};
    use crate::chunk::Chunk;
    use crate::datatypes::{DataType, Field, Schema};
    use crate::error::{Error, Result};
    use crate::pq;
    pub use crate::pq::error::Error as ParquetError;
    pub use crate::pq::metadata::{FileMetaData, RowGroupMetaData};
    use crate::pq::page::Page;
    use crate::pq::schema::types::PrimitiveType;
    use fallible_streaming_iterator::FallibleStreamingIterator;
    use std::borrow::Borrow;
    use std::io::{Read, Seek};

    pub type ArrayIter<'a> = Box<dyn Iterator<Item = Result<Box<dyn Array>>> + Send + Sync + 'a>;

    pub fn read_metadata<R: Read + Seek>(r: &mut R) -> Result<FileMetaData> {
        Ok(pq::read::read_metadata(r)?)
    }
    pub fn infer_schema(md: &FileMetaData) -> Result<Schema> {
        Ok(Schema::from(md.schema_descr.fields.clone()))
    }
    pub mod schema {
        pub mod convert {
            pub fn to_primitive_type(p: &crate::pq::schema::types::PrimitiveType) -> crate::datatypes::DataType {
                p.arrow.clone()
            }
        }
    }
    fn gather<I>(mut pages: I) -> Result<Vec<scalar::Scalar>>
    where
        I: FallibleStreamingIterator<Error = ParquetError>,
        I::Item: Borrow<Page> + Sized,
    {
        let mut out = vec![];
        while let Some(p) = pages.next()? {
            match p.borrow() {
                Page::Data(d) => out.extend(d.decode()?),
                _ => return Err(Error::nyi("dict page")),
            }
        }
        Ok(out)
    }
    fn chunked(dt: &DataType, v: Vec<scalar::Scalar>, chunk_size: Option<usize>) -> ArrayIter<'static> {
        if v.is_empty() {
            return Box::new(std::iter::empty());
        }
        let n = chunk_size.unwrap_or(v.len()).max(1);
        let out = v.chunks(n).map(|c| Ok(scalar::build(dt, c.to_vec()))).collect::<Vec<Result<_>>>();
        Box::new(out.into_iter())
    }
    pub mod deserialize {
        use super::*;
        pub fn page_iter_to_arrays<'a, I>(
            pages: I,
            _type: &PrimitiveType,
            data_type: DataType,
            chunk_size: Option<usize>,
            num_rows: usize,
        ) -> Result<ArrayIter<'a>>
        where
            I: FallibleStreamingIterator<Error = ParquetError>,
            I::Item: Borrow<Page> + Sized,
        {
            let mut v = gather(pages)?;
            v.truncate(num_rows);
            Ok(chunked(&data_type, v, chunk_size))
        }
    }
    pub fn column_iter_to_arrays<'a, I>(
        columns: Vec<I>,
        _types: Vec<&PrimitiveType>,
        field: Field,
        chunk_size: Option<usize>,
        num_rows: usize,
    ) -> Result<ArrayIter<'a>>
    where
        I: FallibleStreamingIterator<Error = ParquetError>,
        I::Item: Borrow<Page> + Sized,
    {
        let mut v = vec![];
        for c in columns {
            v.extend(gather(c)?);
        }
        v.truncate(num_rows);
        Ok(chunked(&field.data_type, v, chunk_size))
    }
    pub mod statistics {
        use super::*;
        pub struct Statistics {
            pub min_value: Box<dyn Array>,
            pub max_value: Box<dyn Array>,
        }
        /// Minimum and maximum of the column over each of the row groups.
        pub fn deserialize(field: &Field, row_groups: &[RowGroupMetaData]) -> Result<Statistics> {
            let (mut mins, mut maxs) = (vec![], vec![]);
            for g in row_groups {
                let col = g
                    .columns
                    .iter()
                    .find(|c| c.descriptor.path_in_schema[0] == field.name)
                    .ok_or_else(|| Error::oos("column not found"))?;
                let pick = |max: bool| {
                    col.pages
                        .iter()
                        .filter_map(|p| p.stats.as_ref())
                        .map(|s| if max { s.max.clone() } else { s.min.clone() })
                        .filter(|s| !s.is_null())
                        .reduce(|a, b| {
                            let o = scalar::cmp(&field.data_type, &a, &b);
                            if (o == std::cmp::Ordering::Less) == max { b } else { a }
                        })
                        .unwrap_or(scalar::Scalar::Null)
                };
                mins.push(pick(false));
                maxs.push(pick(true));
            }
            Ok(Statistics {
                min_value: scalar::build(&field.data_type, mins),
                max_value: scalar::build(&field.data_type, maxs),
            })
        }
    }
    pub struct FileReader<R: Read + Seek> {
        reader: R,
        groups: std::vec::IntoIter<RowGroupMetaData>,
        schema: Schema,
        chunk_size: Option<usize>,
        limit: usize,
        ready: std::collections::VecDeque<Chunk<Box<dyn Array>>>,
    }
    impl<R: Read + Seek> FileReader<R> {
        pub fn new(
            reader: R,
            row_groups: Vec<RowGroupMetaData>,
            schema: Schema,
            chunk_size: Option<usize>,
            limit: Option<usize>,
            _page_indexes: Option<Vec<()>>,
        ) -> Self {
            Self {
                reader,
                groups: row_groups.into_iter(),
                schema,
                chunk_size,
                limit: limit.unwrap_or(usize::MAX),
                ready: Default::default(),
            }
        }
        fn load(&mut self, g: RowGroupMetaData) -> Result<()> {
            let n = g.num_rows.min(self.limit);
            self.limit -= n;
            let mut cols = vec![];
            for f in &self.schema.fields {
                let c = g
                    .columns
                    .iter()
                    .find(|c| c.descriptor.path_in_schema[0] == f.name)
                    .ok_or_else(|| Error::oos(format!("column {} not found", f.name)))?;
                let mut v = vec![];
                for p in &c.pages {
                    match pq::read::read_page(&mut self.reader, p)? {
                        pq::page::CompressedPage::Data(d) => v.extend(d.0.decode()?),
                        _ => return Err(Error::nyi("dict page")),
                    }
                }
                v.truncate(n);
                cols.push((f.data_type.clone(), v));
            }
            let step = self.chunk_size.unwrap_or(usize::MAX).min(n.max(1));
            let mut at = 0;
            while at < n {
                let end = n.min(at + step);
                let arrs = cols
                    .iter()
                    .map(|(dt, v)| scalar::build(dt, v[at.min(v.len())..end.min(v.len())].to_vec()))
                    .collect::<Vec<_>>();
                self.ready.push_back(Chunk::try_new(arrs)?);
                at = end;
            }
            Ok(())
        }
    }
    impl<R: Read + Seek> Iterator for FileReader<R> {
        type Item = Result<Chunk<Box<dyn Array>>>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.schema.fields.is_empty() {
                return None;
            }
            loop {
                if let Some(c) = self.ready.pop_front() {
                    return Some(Ok(c));
                }
                let g = self.groups.next()?;
                if let Err(e) = self.load(g) {
                    return Some(Err(e));
                }
            }
        }
    }
}
pub mod write {
    use crate::array::{scalar, Array};
    use crate::chunk::Chunk;
    use crate::datatypes::{DataType, Schema};
    use crate::error::{Error, Result};
    pub use crate::pq::compression::CompressionOptions;
    pub use crate::pq::encoding::Encoding;
    pub use crate::pq::metadata::{KeyValue, SchemaDescriptor};
    use crate::pq::page::*;
    use crate::pq::schema::types::ParquetType;
    pub use crate::pq::write::Version;
    use crate::pq::write::{FileSeqWriter, WriteOptions as SeqOptions};
    use crate::pq::PageStats;
    use std::cmp::Ordering;
    use std::io::Write;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WriteOptions {
        pub write_statistics: bool,
        pub version: Version,
        pub compression: CompressionOptions,
        pub data_pagesize_limit: Option<usize>,
    }
    pub type DynIter<T> = std::vec::IntoIter<T>;

    pub fn transverse<T, F: Fn(&DataType) -> T + Clone>(dt: &DataType, map: F) -> Vec<T> {
        match dt {
            DataType::List(f) | DataType::LargeList(f) => transverse(&f.data_type, map),
            d => vec![map(d)],
        }
    }
    pub fn to_parquet_schema(s: &Schema) -> Result<SchemaDescriptor> {
        Ok(SchemaDescriptor::of(s))
    }
    pub fn add_arrow_schema(_s: &Schema, kv: Option<Vec<KeyValue>>) -> Option<Vec<KeyValue>> {
        Some(kv.unwrap_or_default())
    }
    fn leaf_count(s: &scalar::Scalar) -> usize {
        match s {
            scalar::Scalar::List(l) => l.len().max(1),
            _ => 1,
        }
    }
    pub fn array_to_columns<A: AsRef<dyn Array>>(
        array: A,
        type_: ParquetType,
        options: WriteOptions,
        encodings: &[Encoding],
    ) -> Result<Vec<DynIter<Result<Page>>>> {
        if encodings.len() != 1 {
            return Err(Error::InvalidArgumentError("one encoding per leaf".into()));
        }
        let a = array.as_ref();
        if a.data_type().to_physical_type() != type_.field.data_type.to_physical_type() {
            return Err(Error::InvalidArgumentError(format!(
                "array of type {:?} written as {:?}",
                a.data_type(),
                type_.field.data_type
            )));
        }
        let n = a.len();
        let vals = (0..n).map(|i| scalar::get(a, i)).collect::<Vec<_>>();
        let size: usize = vals.iter().map(|v| v.byte_size()).sum();
        let limit = options.data_pagesize_limit.unwrap_or(1024 * 1024);
        let per_row = if n == 0 { 0 } else { size / n };
        let rows = (limit / (per_row + 1)).max(1);
        let nested = matches!(a.data_type(), DataType::List(_) | DataType::LargeList(_));
        let pages = vals
            .chunks(rows)
            .map(|c| {
                let stats = if options.write_statistics && !nested {
                    let dt = a.data_type();
                    let nn = c.iter().filter(|v| !v.is_null());
                    let min = nn.clone().min_by(|x, y| scalar::cmp(dt, x, y)).cloned();
                    let max = nn.max_by(|x, y| scalar::cmp(dt, x, y)).cloned();
                    Some(PageStats {
                        dt: dt.clone(),
                        null_count: c.iter().filter(|v| v.is_null()).count(),
                        min: min.unwrap_or(scalar::Scalar::Null),
                        max: max.unwrap_or(scalar::Scalar::Null),
                    })
                } else {
                    None
                };
                Ok(Page::Data(DataPage {
                    data: bincode::serialize(c).unwrap(),
                    num_values: c.iter().map(leaf_count).sum(),
                    num_rows: c.len(),
                    stats,
                }))
            })
            .collect::<Vec<_>>();
        let _ = Ordering::Equal;
        Ok(vec![pages.into_iter()])
    }
    pub struct RowGroup(Vec<Vec<CompressedPage>>);
    pub struct RowGroupIterator<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> {
        iter: I,
        schema: SchemaDescriptor,
        options: WriteOptions,
        encodings: Vec<Vec<Encoding>>,
    }
    impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> RowGroupIterator<A, I> {
        pub fn try_new(iter: I, schema: &Schema, options: WriteOptions, encodings: Vec<Vec<Encoding>>) -> Result<Self> {
            if encodings.len() != schema.fields.len() {
                return Err(Error::InvalidArgumentError(
                    "The number of encodings must equal the number of fields".into(),
                ));
            }
            Ok(Self { iter, schema: SchemaDescriptor::of(schema), options, encodings })
        }
    }
    impl<A: AsRef<dyn Array>, I: Iterator<Item = Result<Chunk<A>>>> Iterator for RowGroupIterator<A, I> {
        type Item = Result<RowGroup>;
        fn next(&mut self) -> Option<Self::Item> {
            let c = match self.iter.next()? {
                Ok(c) => c,
                Err(e) => return Some(Err(e)),
            };
            if self.encodings.len() != c.arrays().len() {
                return Some(Err(Error::InvalidArgumentError(
                    "The number of arrays in the chunk must equal the number of fields in the schema".into(),
                )));
            }
            let mut out = vec![];
            for ((a, d), e) in c.arrays().iter().zip(self.schema.columns()).zip(&self.encodings) {
                match array_to_columns(a.as_ref().to_boxed(), d.base_type.clone(), self.options, e) {
                    Ok(mut cols) => {
                        let mut pages = vec![];
                        for p in cols.pop().unwrap() {
                            match p {
                                Ok(Page::Data(d)) => pages.push(CompressedPage::Data(CompressedDataPage(d))),
                                Ok(_) => unreachable!(),
                                Err(e) => return Some(Err(e)),
                            }
                        }
                        out.push(pages);
                    }
                    Err(e) => return Some(Err(e)),
                }
            }
            Some(Ok(RowGroup(out)))
        }
    }
    pub struct FileWriter<W: Write> {
        w: FileSeqWriter<W>,
    }
    impl<W: Write> FileWriter<W> {
        pub fn try_new(w: W, schema: Schema, o: WriteOptions) -> Result<Self> {
            Ok(Self {
                w: FileSeqWriter::new(
                    w,
                    SchemaDescriptor::of(&schema),
                    SeqOptions { write_statistics: o.write_statistics, version: o.version },
                    None,
                ),
            })
        }
        pub fn write(&mut self, g: RowGroup) -> Result<()> {
            for c in &g.0 {
                for p in c {
                    self.w.write_page(p)?;
                }
                self.w.end_column()?;
            }
            self.w.end_row_group()?;
            Ok(())
        }
        pub fn end(&mut self, kv: Option<Vec<KeyValue>>) -> Result<u64> {
            Ok(self.w.end(kv)?)
        }
    }
}

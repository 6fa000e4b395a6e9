pub mod merge_sort {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct SortOptions {
        pub descending: bool,
        pub nulls_first: bool,
    }
    impl Default for SortOptions {
        fn default() -> Self {
            Self { descending: false, nulls_first: true }
        }
    }
}
pub mod sort {
    pub use super::merge_sort::SortOptions;
    use crate::array::{scalar, Array, PrimitiveArray};
    use crate::error::Result;
    use crate::types::Index;
    use std::cmp::Ordering;

    pub struct SortColumn<'a> {
        pub values: &'a dyn Array,
        pub options: Option<SortOptions>,
    }
    pub fn lexsort_to_indices<I: Index>(
        columns: &[SortColumn],
        limit: Option<usize>,
    ) -> Result<PrimitiveArray<I>> {
        let n = columns[0].values.len();
        let keys = columns
            .iter()
            .map(|c| (0..n).map(|i| scalar::get(c.values, i)).collect::<Vec<_>>())
            .collect::<Vec<_>>();
        let mut idx = (0..n).collect::<Vec<_>>();
        idx.sort_by(|a, b| {
            for (c, k) in columns.iter().zip(keys.iter()) {
                let o = c.options.unwrap_or_default();
                let ord = match (k[*a].is_null(), k[*b].is_null()) {
                    (true, true) => Ordering::Equal,
                    (true, false) if o.nulls_first => Ordering::Less,
                    (true, false) => Ordering::Greater,
                    (false, true) if o.nulls_first => Ordering::Greater,
                    (false, true) => Ordering::Less,
                    _ => {
                        let r = scalar::cmp(c.values.data_type(), &k[*a], &k[*b]);
                        if o.descending { r.reverse() } else { r }
                    }
                };
                if ord != Ordering::Equal {
                    return ord;
                }
            }
            Ordering::Equal
        });
        if let Some(l) = limit {
            idx.truncate(l);
        }
        Ok(PrimitiveArray::<I>::from_vec(idx.into_iter().map(I::from_usize).collect()))
    }
}
pub mod take {
    use crate::array::{scalar, Array, PrimitiveArray};
    use crate::error::Result;
    use crate::types::Index;
    pub fn take<I: Index>(values: &dyn Array, indices: &PrimitiveArray<I>) -> Result<Box<dyn Array>> {
        let v = (0..indices.len())
            .map(|i| match indices.get(i) {
                None => scalar::Scalar::Null,
                Some(j) => scalar::get(values, j.to_usize()),
            })
            .collect();
        Ok(scalar::build(values.data_type(), v))
    }
}
pub mod concatenate {
    use crate::array::{scalar, Array};
    use crate::error::{Error, Result};
    pub fn concatenate(arrays: &[&dyn Array]) -> Result<Box<dyn Array>> {
        if arrays.is_empty() {
            return Err(Error::InvalidArgumentError("concat requires input of at least one array".into()));
        }
        if arrays.iter().any(|a| a.data_type() != arrays[0].data_type()) {
            return Err(Error::InvalidArgumentError("It is not possible to concatenate arrays of different data types.".into()));
        }
        let v = arrays.iter().flat_map(|a| (0..a.len()).map(move |i| scalar::get(*a, i))).collect();
        Ok(scalar::build(arrays[0].data_type(), v))
    }
}
pub mod cast {
    use crate::array::PrimitiveArray;
    use crate::datatypes::DataType;
    pub fn integer_to_decimal(from: &PrimitiveArray<i128>, p: usize, s: usize) -> PrimitiveArray<i128> {
        let mul = 10i128.pow(s as u32);
        let max = 10i128.pow(p as u32) - 1;
        let v = (0..from.len())
            .map(|i| from.get(i).and_then(|x| x.checked_mul(mul)).filter(|x| x.abs() <= max))
            .collect::<Vec<_>>();
        PrimitiveArray::<i128>::from(v).to(DataType::Decimal(p, s))
    }
}

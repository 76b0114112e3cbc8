//! Stand-in for the arrow2 fork (not available offline): the data type variants src/common maps.
//! Fields are never dropped (schemas in the harnesses are a few words), so that the solver need not unfold
//! the recursive drop of nested types.
pub mod datatypes {
    use std::mem::ManuallyDrop;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TimeUnit {
        Second,
        Millisecond,
        Microsecond,
        Nanosecond,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Field {
        pub name: ManuallyDrop<String>,
        pub data_type: ManuallyDrop<DataType>,
        pub is_nullable: bool,
    }
    impl Field {
        pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self {
            Field { name: ManuallyDrop::new(name.into()), data_type: ManuallyDrop::new(data_type), is_nullable }
        }
        pub fn data_type(&self) -> &DataType {
            &self.data_type
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum DataType {
        Null,
        Boolean,
        Int8,
        Int16,
        Int32,
        Int64,
        UInt8,
        UInt16,
        UInt32,
        UInt64,
        Float32,
        Float64,
        Utf8,
        LargeUtf8,
        Binary,
        LargeBinary,
        Date32,
        Date64,
        Timestamp(TimeUnit, Option<String>),
        Decimal(usize, usize),
        List(Box<Field>),
    }
}

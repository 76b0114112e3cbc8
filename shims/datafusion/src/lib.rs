//! The re-exports of the datafusion facade that src/common uses, on the real component crates.
pub mod physical_plan {
    pub mod aggregates {
        pub use datafusion_expr::AggregateFunction;
    }
}
pub mod common {
    pub use datafusion_common::*;
}
pub mod logical_expr {
    pub use datafusion_expr::*;
}
pub mod scalar {
    pub use datafusion_common::ScalarValue;
}
pub mod error {
    pub use datafusion_common::DataFusionError;
    pub use datafusion_common::Result;
}

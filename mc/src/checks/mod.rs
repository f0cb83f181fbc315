pub mod assembly;
pub mod batch;
pub mod build;
pub mod convert;
pub mod errors;
pub mod flow;
pub mod gating;
pub mod messages;
pub mod results;
pub mod same;
pub mod schema;
pub mod session;
pub mod values;

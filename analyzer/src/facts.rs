//! Order facts between element groups (filled in by the ordering analysis).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Facts {}

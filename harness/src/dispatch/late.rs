op! { L1 20, L2 21, L3 22 }
pub mod nested { op! { L4 23, Same 24 } pub mod deeper { op! { L5 25 } } }

use vstd::string::*;
pub assume_specification [ String::with_capacity ] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();

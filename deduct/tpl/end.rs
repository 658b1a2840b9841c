verus! { fn main() {} }

//! C25: a program with more operations than an identifier of one byte can tell apart.
#[path = "dispatch/op.rs"]
#[macro_use]
mod op;
macro_rules! ops { ($($m:ident),*) => {
    $(mod $m { op! { O00 0, O01 1, O02 2, O03 3, O04 4, O05 5, O06 6, O07 7, O08 8, O09 9, O10 10, O11 11, O12 12, O13 13, O14 14, O15 15 } }
    )*
} }
ops! { m00, m01, m02, m03, m04, m05, m06, m07, m08, m09, m10, m11, m12, m13, m14, m15, m16 }

harness! {
    wrap_distinct {
        let ids = [<m00::O00 as paladin::operation::RemoteExecute>::ID, <m08::O07 as paladin::operation::RemoteExecute>::ID, <m16::O00 as paladin::operation::RemoteExecute>::ID];
        let (i, j) = (vh::choice(3, "first") as usize, vh::choice(3, "second") as usize);
        if i == j { return; }
        vh::check(ids[i] != ids[j], "operations of a program with more than 256 have the same identifier");
        vh::cover("done");
    }
}

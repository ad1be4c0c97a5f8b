//! Interior mutability in a layout-controlling field.  A length expression is a `const fn` body of the fields it
//! names; since `Cell::replace` is `const` such a body can read a `Cell`, and a `Cell` can be set through `refs()`.
//! No generated history contains this operation: it is the history of a recorded finding (KNOWN_FINDINGS.txt).

use crate::rt::viol;
use core::cell::Cell;
use varlen::array_init::FillSequentially;
use varlen::define_varlen;
use varlen::prelude::*;

#[define_varlen]
struct CellCtl {
    #[controls_layout]
    n: Cell<usize>,
    #[varlen_array]
    a: [u8; {
        let v = n.replace(0);
        n.replace(v);
        v
    }],
}

/// A value built with one length, then its `Cell` set to another through a shared reference, and back.
pub fn simulate(a: u32, b: u32) {
    let (big, small) = (4 + a as usize % 60, b as usize % 4);
    let v: VBox<CellCtl> = VBox::new(cell_ctl::Init { n: Cell::new(big), a: FillSequentially(|i| i as u8) });
    let before = v.refs().a.len();
    v.refs().n.set(small);
    let after = v.refs().a.len();
    v.refs().n.set(big);
    if before != big || v.refs().a.len() != big {
        viol("ctl", &format!("an array of {} elements reads as {} and then as {}", big, before, v.refs().a.len()));
    } else if after != before {
        viol("ctl", "a Cell field that controls the layout, set through the shared reference refs() hands out, \
                     changed the length of a built array (the length expression reads it with the const fn Cell::replace)");
    }
}

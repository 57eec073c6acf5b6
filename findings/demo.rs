use rc_slice::{ArcSlice, arc::WeakSlice};
fn main() {
    // D1
    let mut s = ArcSlice::from_vec(vec![1, 2]);
    let l = ArcSlice::clone_left(&s); let w = ArcSlice::downgrade(&l); drop(l);
    let r = ArcSlice::get_mut(&mut s).is_some();
    println!("D1 get_mut granted {} upgrade {}", r, w.upgrade().is_some());
    // D7
    let p = ArcSlice::from_vec(vec![1, 2]);
    let l = ArcSlice::clone_left(&p); let w = ArcSlice::downgrade(&l); drop(l);
    let mut l2 = ArcSlice::clone_left(&p); drop(p);
    println!("D7 get_mut granted {} upgrade {}", ArcSlice::get_mut(&mut l2).is_some(), w.upgrade().is_some());
    // D5b
    let p = ArcSlice::from_vec(vec![1, 2]);
    for _ in 0..2 { drop(ArcSlice::clone_left(&p)); }
}

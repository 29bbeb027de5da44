//! Rust definitions of standard library functions whose own code cannot be
//! resolved generically (specialisation).  They replace the bodies during
//! the analysis only.

pub struct ZipModel<A, B> {
    a: A,
    b: B,
    index: usize,
    len: usize,
}

pub fn model_std__iter__adapters__zip__ZipImpl__new<Z, A, B>(a: A, b: B) -> ZipModel<A, B> {
    ZipModel { a, b, index: 0, len: 0 }
}

pub fn model_std__iter__adapters__zip__ZipImpl__next<Z, A: Iterator, B: Iterator>(z: &mut ZipModel<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}

pub fn model_std__iter__adapters__zip__ZipImpl__size_hint<Z, A: Iterator, B: Iterator>(z: &ZipModel<A, B>) -> (usize, Option<usize>) {
    let (a, ah) = z.a.size_hint();
    let (b, bh) = z.b.size_hint();
    let hi = match (ah, bh) {
        (Some(x), Some(y)) => Some(if x < y { x } else { y }),
        (Some(x), None) => Some(x),
        (None, y) => y,
    };
    (if a < b { a } else { b }, hi)
}

//! Consumption of iterators in any interleaving, against their containers.
/// Consumption of a sparse iterator of pairs in any interleaving.
/// `$val(v, k)`: the value yielded for key k is right.
#[macro_export]
macro_rules! sparse_walk {
    ($it:expr, $m:expr, $j:expr, $K:ty, |$k:ident, $v:ident| $val:expr) => {
        let mut f = 0usize;
        let mut b = <$K>::ORDINAL_SIZE;
        while any() {
            if any() {
                match $it.next() {
                    Some(($k, $v)) => {
                        check!(f <= $k.ordinal());
                        check!($k.ordinal() < b);
                        check!($m.contains_key(&$k));
                        if f <= $j.ordinal() && $j.ordinal() < $k.ordinal() { check!(!$m.contains_key(&$j)); }
                        f = $k.ordinal() + 1;
                        $val;
                        discard(($k, $v));
                    }
                    None => {
                        if f <= $j.ordinal() && $j.ordinal() < b { check!(!$m.contains_key(&$j)); }
                        f = b;
                    }
                }
            } else {
                match $it.next_back() {
                    Some(($k, $v)) => {
                        check!(f <= $k.ordinal());
                        check!($k.ordinal() < b);
                        check!($m.contains_key(&$k));
                        if $k.ordinal() < $j.ordinal() && $j.ordinal() < b { check!(!$m.contains_key(&$j)); }
                        b = $k.ordinal();
                        $val;
                        discard(($k, $v));
                    }
                    None => {
                        if f <= $j.ordinal() && $j.ordinal() < b { check!(!$m.contains_key(&$j)); }
                        b = f;
                    }
                }
            }
        }
    };
}

#[macro_export]
macro_rules! total_walk {
    ($it:expr, $K:ty, |$k:ident, $v:ident| $val:expr) => {
        let mut f = 0usize;
        let mut b = <$K>::ORDINAL_SIZE;
        while any() {
            if any() {
                match $it.next() {
                    Some(($k, $v)) => {
                        check!(f < b);
                        check!($k.ordinal() == f);
                        f += 1;
                        $val;
                        discard(($k, $v));
                    }
                    None => check!(f == b),
                }
            } else {
                match $it.next_back() {
                    Some(($k, $v)) => {
                        check!(f < b);
                        b -= 1;
                        check!($k.ordinal() == b);
                        $val;
                        discard(($k, $v));
                    }
                    None => check!(f == b),
                }
            }
        }
    };
}

/// iterators of values alone: in step with the key numbers
#[macro_export]
macro_rules! value_walk {
    ($it:expr, $K:ty, |$k:ident, $v:ident| $val:expr) => {
        let mut f = 0usize;
        let mut b = <$K>::ORDINAL_SIZE;
        while any() {
            if any() {
                match $it.next() {
                    Some($v) => {
                        check!(f < b);
                        let $k = <$K>::from_ordinal(f).unwrap();
                        f += 1;
                        $val;
                        discard(($k, $v));
                    }
                    None => check!(f == b),
                }
            } else {
                match $it.next_back() {
                    Some($v) => {
                        check!(f < b);
                        b -= 1;
                        let $k = <$K>::from_ordinal(b).unwrap();
                        $val;
                        discard(($k, $v));
                    }
                    None => check!(f == b),
                }
            }
        }
    };
}


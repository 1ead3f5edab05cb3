//! Composite signals: tuples, fixed-length vectors and derived structures act component by component.
use fawkes_crypto::circuit::{bool::CBool, ecc::{CEdwardsPoint, CMontgomeryPoint}, num::CNum, poseidon::CMerkleProof};
use fawkes_crypto::core::{cs::ConstraintSystem, signal::Signal, sizedvec::SizedVec};
use fawkes_crypto::native::{ecc::{EdwardsPoint, MontgomeryPoint}, num::Num, poseidon::MerkleProof};
use fawkes_crypto_derive::Signal;
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;
use typenum::Unsigned;

#[derive(Clone)]
pub struct Trip<F: fawkes_crypto::core::field::Field> { pub a: Num<F>, pub b: bool, pub c: Num<F> }
#[derive(Clone, Signal)]
#[Value = "Trip<CS::F>"]
pub struct CTrip<'a, CS: ConstraintSystem> { pub a: CNum<'a, CS>, pub b: CBool<'a, CS>, pub c: CNum<'a, CS> }

#[derive(Clone)]
pub struct TTrip<F: fawkes_crypto::core::field::Field>(pub Num<F>, pub bool, pub Num<F>);
#[derive(Clone, Signal)]
#[Value = "TTrip<CS::F>"]
pub struct CTTrip<'a, CS: ConstraintSystem>(pub CNum<'a, CS>, pub CBool<'a, CS>, pub CNum<'a, CS>);

macro_rules! two_fields {
    ($m:ident, $C:ident, $V:ident) => {
        pub mod $m {
            use super::*;
            pub fn s_get_value<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Option<$V<CS::F>> { s.get_value() }
            pub fn r_get_value<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Option<$V<CS::F>> {
                match (s.x.get_value(), s.y.get_value()) { (Some(x), Some(y)) => Some($V { x, y }), _ => None }
            }
            pub fn s_as_const<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Option<$V<CS::F>> { s.as_const() }
            pub fn r_as_const<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Option<$V<CS::F>> {
                match (s.x.as_const(), s.y.as_const()) { (Some(x), Some(y)) => Some($V { x, y }), _ => None }
            }
            pub fn s_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &$V<CS::F>) -> $C<'a, CS> { Signal::from_const(cs, v) }
            pub fn r_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &$V<CS::F>) -> $C<'a, CS> {
                $C { x: CNum::from_const(cs, &v.x), y: CNum::from_const(cs, &v.y) }
            }
            pub fn s_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&$V<CS::F>>) -> $C<'a, CS> { Signal::alloc(cs, v) }
            pub fn r_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&$V<CS::F>>) -> $C<'a, CS> {
                let x = CNum::alloc(cs, v.map(|v| &v.x));
                let y = CNum::alloc(cs, v.map(|v| &v.y));
                $C { x, y }
            }
            pub fn s_switch<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, b: &CBool<'a, CS>, o: &$C<'a, CS>) -> $C<'a, CS> { s.switch(b, o) }
            pub fn r_switch<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, b: &CBool<'a, CS>, o: &$C<'a, CS>) -> $C<'a, CS> {
                $C { x: s.x.switch(b, &o.x), y: s.y.switch(b, &o.y) }
            }
            pub fn s_assert_const<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$V<CS::F>) { s.assert_const(v) }
            pub fn r_assert_const<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$V<CS::F>) { s.x.assert_const(&v.x); s.y.assert_const(&v.y) }
            pub fn s_assert_eq<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$C<'a, CS>) { s.assert_eq(v) }
            pub fn r_assert_eq<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$C<'a, CS>) { s.x.assert_eq(&v.x); s.y.assert_eq(&v.y) }
            pub fn s_is_eq<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$C<'a, CS>) -> CBool<'a, CS> { s.is_eq(v) }
            pub fn r_is_eq<'a, CS: ConstraintSystem>(s: &$C<'a, CS>, v: &$C<'a, CS>) -> CBool<'a, CS> {
                CBool(s.x.is_eq(&v.x).0 * s.y.is_eq(&v.y).0)
            }
            pub fn s_inputize<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) { s.inputize() }
            pub fn r_inputize<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) { s.x.inputize(); s.y.inputize() }
            pub fn s_linearize<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Vec<CNum<'a, CS>> { s.linearize() }
            pub fn r_linearize<'a, CS: ConstraintSystem>(s: &$C<'a, CS>) -> Vec<CNum<'a, CS>> { vec![s.x.clone(), s.y.clone()] }
        }
    };
}
two_fields!(edw, CEdwardsPoint, EdwardsPoint);
two_fields!(mon, CMontgomeryPoint, MontgomeryPoint);

macro_rules! three_fields {
    ($m:ident, $C:ident, $V:ident, $a:tt, $b:tt, $c:tt) => {
pub mod $m {
    use super::*;
    type S<'a, CS> = $C<'a, CS>;
    pub fn s_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<$V<CS::F>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<$V<CS::F>> {
        match (s.$a.get_value(), s.$b.get_value(), s.$c.get_value()) { (Some(a), Some(b), Some(c)) => Some($V { $a: a, $b: b, $c: c }), _ => None }
    }
    pub fn s_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<$V<CS::F>> { s.as_const() }
    pub fn r_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<$V<CS::F>> {
        match (s.$a.as_const(), s.$b.as_const(), s.$c.as_const()) { (Some(a), Some(b), Some(c)) => Some($V { $a: a, $b: b, $c: c }), _ => None }
    }
    pub fn s_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &$V<CS::F>) -> S<'a, CS> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &$V<CS::F>) -> S<'a, CS> {
        $C { $a: CNum::from_const(cs, &v.$a), $b: CBool::from_const(cs, &v.$b), $c: CNum::from_const(cs, &v.$c) }
    }
    pub fn s_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&$V<CS::F>>) -> S<'a, CS> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&$V<CS::F>>) -> S<'a, CS> {
        let a = CNum::alloc(cs, v.map(|v| &v.$a));
        let b = CBool::alloc(cs, v.map(|v| &v.$b));
        let c = CNum::alloc(cs, v.map(|v| &v.$c));
        $C { $a: a, $b: b, $c: c }
    }
    pub fn s_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> {
        $C { $a: s.$a.switch(b, &o.$a), $b: s.$b.switch(b, &o.$b), $c: s.$c.switch(b, &o.$c) }
    }
    pub fn s_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &$V<CS::F>) { s.assert_const(v) }
    pub fn r_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &$V<CS::F>) { s.$a.assert_const(&v.$a); s.$b.assert_const(&v.$b); s.$c.assert_const(&v.$c) }
    pub fn s_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.$a.assert_eq(&v.$a); s.$b.assert_eq(&v.$b); s.$c.assert_eq(&v.$c) }
    pub fn s_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> {
        CBool(s.$a.is_eq(&v.$a).0 * s.$b.is_eq(&v.$b).0 * s.$c.is_eq(&v.$c).0)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.$a.inputize(); s.$b.inputize(); s.$c.inputize() }
    pub fn s_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { vec![s.$a.clone(), s.$b.0.clone(), s.$c.clone()] }
}
    };
}
three_fields!(trip, CTrip, Trip, a, b, c);
three_fields!(ttrip, CTTrip, TTrip, 0, 1, 2);

pub mod tup {
    use super::*;
    type S<'a, CS> = (CNum<'a, CS>, CBool<'a, CS>, CNum<'a, CS>);
    type Tv<CS> = (Num<<CS as ConstraintSystem>::F>, bool, Num<<CS as ConstraintSystem>::F>);
    pub fn s_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        match (s.0.get_value(), s.1.get_value(), s.2.get_value()) { (Some(a), Some(b), Some(c)) => Some((a, b, c)), _ => None }
    }
    pub fn s_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.as_const() }
    pub fn r_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        match (s.0.as_const(), s.1.as_const(), s.2.as_const()) { (Some(a), Some(b), Some(c)) => Some((a, b, c)), _ => None }
    }
    pub fn s_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> {
        (CNum::from_const(cs, &v.0), CBool::from_const(cs, &v.1), CNum::from_const(cs, &v.2))
    }
    pub fn s_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> {
        let a = CNum::alloc(cs, v.map(|v| &v.0));
        let b = CBool::alloc(cs, v.map(|v| &v.1));
        let c = CNum::alloc(cs, v.map(|v| &v.2));
        (a, b, c)
    }
    pub fn s_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> {
        (s.0.switch(b, &o.0), s.1.switch(b, &o.1), s.2.switch(b, &o.2))
    }
    pub fn s_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { s.assert_const(v) }
    pub fn r_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { s.0.assert_const(&v.0); s.1.assert_const(&v.1); s.2.assert_const(&v.2) }
    pub fn s_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.0.assert_eq(&v.0); s.1.assert_eq(&v.1); s.2.assert_eq(&v.2) }
    pub fn s_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> {
        CBool(s.0.is_eq(&v.0).0 * s.1.is_eq(&v.1).0 * s.2.is_eq(&v.2).0)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.0.inputize(); s.1.inputize(); s.2.inputize() }
    pub fn s_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { vec![s.0.clone(), s.1 .0.clone(), s.2.clone()] }
}

/// Tuples of other arities (the implementation is generated for 1 to 17 components).
macro_rules! wide {
    ($m:ident, $($i:tt $v:ident),*) => {
pub mod $m {
    use super::*;
    type One<'a, CS, const I: usize> = CNum<'a, CS>;
    type OneV<CS, const I: usize> = Num<<CS as ConstraintSystem>::F>;
    type S<'a, CS> = ($(One<'a, CS, $i>,)*);
    type Tv<CS> = ($(OneV<CS, $i>,)*);
    pub fn s_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        $(let $v = match s.$i.get_value() { Some(x) => x, None => return None };)*
        Some(($($v,)*))
    }
    pub fn s_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.as_const() }
    pub fn r_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        $(let $v = match s.$i.as_const() { Some(x) => x, None => return None };)*
        Some(($($v,)*))
    }
    pub fn s_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> { ($(CNum::from_const(cs, &v.$i),)*) }
    pub fn s_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> { ($(CNum::alloc(cs, v.map(|v| &v.$i)),)*) }
    pub fn s_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { ($(s.$i.switch(b, &o.$i),)*) }
    pub fn s_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { s.assert_const(v) }
    pub fn r_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { $(s.$i.assert_const(&v.$i);)* }
    pub fn s_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { $(s.$i.assert_eq(&v.$i);)* }
    pub fn s_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> {
        let mut acc = CNum::from_const(s.0.get_cs(), &Num::one());
        $(acc = acc * s.$i.is_eq(&v.$i).0;)*
        CBool(acc)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { $(s.$i.inputize();)* }
    pub fn s_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { vec![$(s.$i.clone()),*] }
}
    };
}
wide!(tup1, 0 a);
wide!(tup17, 0 a, 1 b, 2 c, 3 d, 4 e, 5 f, 6 g, 7 h, 8 i, 9 j, 10 k, 11 l, 12 m, 13 n, 14 o, 15 p, 16 q);

/// Derived structures of other widths, named and positional.
macro_rules! wide_struct {
    ($m:ident, $C:ident, $V:ident, $first:tt, $($i:tt $v:ident),*) => {
pub mod $m {
    use super::*;
    type S<'a, CS> = $C<'a, CS>;
    type Tv<CS> = $V<<CS as ConstraintSystem>::F>;
    pub fn s_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        $(let $v = match s.$i.get_value() { Some(x) => x, None => return None };)*
        Some($V { $($i: $v),* })
    }
    pub fn s_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> { s.as_const() }
    pub fn r_as_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Option<Tv<CS>> {
        $(let $v = match s.$i.as_const() { Some(x) => x, None => return None };)*
        Some($V { $($i: $v),* })
    }
    pub fn s_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem>(cs: &'a CS, v: &Tv<CS>) -> S<'a, CS> { $C { $($i: CNum::from_const(cs, &v.$i)),* } }
    pub fn s_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem>(cs: &'a CS, v: Option<&Tv<CS>>) -> S<'a, CS> { $C { $($i: CNum::alloc(cs, v.map(|v| &v.$i))),* } }
    pub fn s_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem>(s: &S<'a, CS>, b: &CBool<'a, CS>, o: &S<'a, CS>) -> S<'a, CS> { $C { $($i: s.$i.switch(b, &o.$i)),* } }
    pub fn s_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { s.assert_const(v) }
    pub fn r_assert_const<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &Tv<CS>) { $(s.$i.assert_const(&v.$i);)* }
    pub fn s_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) { $(s.$i.assert_eq(&v.$i);)* }
    pub fn s_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem>(s: &S<'a, CS>, v: &S<'a, CS>) -> CBool<'a, CS> {
        let mut acc = CNum::from_const(s.$first.get_cs(), &Num::one());
        $(acc = acc * s.$i.is_eq(&v.$i).0;)*
        CBool(acc)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) { $(s.$i.inputize();)* }
    pub fn s_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem>(s: &S<'a, CS>) -> Vec<CNum<'a, CS>> { vec![$(s.$i.clone()),*] }
}
    };
}
macro_rules! wide_named {
    ($m:ident, $C:ident, $V:ident, $val:literal, $f:ident $(, $v:ident)*) => {
        #[derive(Clone)]
        pub struct $V<F: fawkes_crypto::core::field::Field> { pub $f: Num<F>, $(pub $v: Num<F>),* }
        #[derive(Clone, Signal)]
        #[Value = $val]
        pub struct $C<'a, CS: ConstraintSystem> { pub $f: CNum<'a, CS>, $(pub $v: CNum<'a, CS>),* }
        wide_struct!($m, $C, $V, $f, $f $f $(, $v $v)*);
    };
}
wide_named!(named1, CNamed1, Named1, "Named1<CS::F>", a);
wide_named!(named12, CNamed12, Named12, "Named12<CS::F>", a, b, c, d, e, f, g, h, i, j, k, l);
#[derive(Clone)]
pub struct Pos9<F: fawkes_crypto::core::field::Field>(pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>, pub Num<F>);
#[derive(Clone, Signal)]
#[Value = "Pos9<CS::F>"]
pub struct CPos9<'a, CS: ConstraintSystem>(pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>, pub CNum<'a, CS>);
wide_struct!(pos9, CPos9, Pos9, 0, 0 a, 1 b, 2 c, 3 d, 4 e, 5 f, 6 g, 7 h, 8 i);

/// A vector inside a tuple: the components have several elements each.
pub mod tupv {
    use super::*;
    type S<'a, CS, L> = (SizedVec<CNum<'a, CS>, L>, CNum<'a, CS>);
    type Tv<CS, L> = (SizedVec<Num<<CS as ConstraintSystem>::F>, L>, Num<<CS as ConstraintSystem>::F>);
    pub fn s_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Tv<CS, L>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Tv<CS, L>> {
        match (s.0.get_value(), s.1.get_value()) { (Some(a), Some(b)) => Some((a, b)), _ => None }
    }
    pub fn s_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> { (s.0.switch(b, &o.0), s.1.switch(b, &o.1)) }
    pub fn s_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) { for i in 0..L::USIZE { s.0 .0[i].assert_eq(&v.0 .0[i]) } s.1.assert_eq(&v.1) }
    pub fn s_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) -> CBool<'a, CS> {
        let mut acc = CNum::from_const(s.1.get_cs(), &Num::one());
        for i in 0..L::USIZE { acc = acc * s.0 .0[i].is_eq(&v.0 .0[i]).0; }
        CBool(acc * s.1.is_eq(&v.1).0)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { for i in 0..L::USIZE { s.0 .0[i].inputize() } s.1.inputize() }
    pub fn s_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> { let mut v = s.0 .0.clone(); v.push(s.1.clone()); v }
}

pub mod vecs {
    use super::*;
    type S<'a, CS, L> = SizedVec<CNum<'a, CS>, L>;
    type Vv<CS, L> = SizedVec<Num<<CS as ConstraintSystem>::F>, L>;
    pub fn s_get_cs<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { let _ = s.get_cs(); }
    pub fn r_get_cs<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { assert!(L::USIZE > 0); }
    pub fn s_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Vv<CS, L>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Vv<CS, L>> {
        let o: Option<Vec<Num<CS::F>>> = s.0.iter().map(|e| e.get_value()).collect();
        match o { Some(v) => { assert!(v.len() == L::USIZE); Some(SizedVec(v, PhantomData)) } None => None }
    }
    pub fn s_as_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Vv<CS, L>> { s.as_const() }
    pub fn r_as_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Vv<CS, L>> {
        let o: Option<Vec<Num<CS::F>>> = s.0.iter().map(|e| e.as_const()).collect();
        match o { Some(v) => { assert!(v.len() == L::USIZE); Some(SizedVec(v, PhantomData)) } None => None }
    }
    pub fn s_from_const<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: &Vv<CS, L>) -> S<'a, CS, L> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: &Vv<CS, L>) -> S<'a, CS, L> {
        (0..v.0.len()).map(|i| CNum::from_const(cs, &v.0[i])).collect()
    }
    pub fn s_alloc<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: Option<&Vv<CS, L>>) -> S<'a, CS, L> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: Option<&Vv<CS, L>>) -> S<'a, CS, L> {
        if let Some(v) = v { (0..v.0.len()).map(|i| CNum::alloc(cs, Some(&v.0[i]))).collect() } else { (0..L::USIZE).map(|_| CNum::alloc(cs, None)).collect() }
    }
    pub fn s_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> {
        (0..L::USIZE).map(|i| s.0[i].switch(b, &o.0[i])).collect()
    }
    pub fn s_assert_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &Vv<CS, L>) { s.assert_const(v) }
    pub fn r_assert_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &Vv<CS, L>) { for i in 0..L::USIZE { s.0[i].assert_const(&v.0[i]) } }
    pub fn s_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) { s.assert_eq(v) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) { for i in 0..L::USIZE { s.0[i].assert_eq(&v.0[i]) } }
    pub fn s_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) -> CBool<'a, CS> { s.is_eq(v) }
    pub fn r_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, v: &S<'a, CS, L>) -> CBool<'a, CS> {
        let mut acc = CNum::from_const(s.get_cs(), &Num::one());
        for i in 0..L::USIZE { acc = acc * s.0[i].is_eq(&v.0[i]).0; }
        CBool(acc)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { for i in 0..s.0.len() { s.0[i].inputize() } }
    pub fn s_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> { s.0.clone() }
    pub fn s_from_iter<T, L: Unsigned>(v: Vec<T>) -> SizedVec<T, L> { v.into_iter().collect() }
    pub fn r_from_iter<T, L: Unsigned>(v: Vec<T>) -> SizedVec<T, L> { assert!(v.len() == L::USIZE); SizedVec(v, PhantomData) }
    pub fn s_iter<T: Clone, L: Unsigned>(v: &SizedVec<T, L>) -> Vec<T> { v.iter().cloned().collect() }
    pub fn r_iter<T: Clone, L: Unsigned>(v: &SizedVec<T, L>) -> Vec<T> { v.0.clone() }
    pub fn s_ser<T: Serialize, L: Unsigned, S: Serializer>(v: &SizedVec<T, L>, s: S) -> Result<S::Ok, S::Error> { Serialize::serialize(v, s) }
    pub fn r_ser<T: Serialize, L: Unsigned, S: Serializer>(v: &SizedVec<T, L>, s: S) -> Result<S::Ok, S::Error> { let w: &Vec<T> = &v.0; Serialize::serialize(w, s) }
    pub fn s_de<'de, T: Deserialize<'de>, L: Unsigned, D: Deserializer<'de>>(d: D) -> Result<SizedVec<T, L>, D::Error> { Deserialize::deserialize(d) }
    pub fn r_de<'de, T: Deserialize<'de>, L: Unsigned, D: Deserializer<'de>>(d: D) -> Result<SizedVec<T, L>, D::Error> {
        let v: Vec<T> = match Deserialize::deserialize(d) { Ok(v) => v, Err(e) => return Err(e) };
        if v.len() == L::USIZE { Ok(SizedVec(v, PhantomData)) } else { Err(de::Error::invalid_length(v.len(), &"length")) }
    }
    pub fn s_index<T: Clone, L: Unsigned>(v: &SizedVec<T, L>, i: usize) -> T { v[i].clone() }
    pub fn r_index<T: Clone, L: Unsigned>(v: &SizedVec<T, L>, i: usize) -> T { v.0[i].clone() }
    pub fn s_iter_mut<T: Clone, L: Unsigned>(v: &mut SizedVec<T, L>, x: T) { for e in v.iter_mut() { *e = x.clone() } }
    pub fn r_iter_mut<T: Clone, L: Unsigned>(v: &mut SizedVec<T, L>, x: T) { for i in 0..v.0.len() { v.0[i] = x.clone() } }
    pub fn s_index_mut<T: Clone, L: Unsigned>(v: &mut SizedVec<T, L>, i: usize, x: T) { v[i] = x }
    pub fn r_index_mut<T: Clone, L: Unsigned>(v: &mut SizedVec<T, L>, i: usize, x: T) { v.0[i] = x }
}

pub mod merkle {
    use super::*;
    type S<'a, CS, L> = CMerkleProof<'a, CS, L>;
    type Mv<CS, L> = MerkleProof<<CS as ConstraintSystem>::F, L>;
    pub fn s_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Mv<CS, L>> { s.get_value() }
    pub fn r_get_value<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Option<Mv<CS, L>> {
        let sibling = s.sibling.get_value();
        let path = s.path.get_value();
        match (sibling, path) { (Some(sibling), Some(path)) => Some(MerkleProof { sibling, path }), _ => None }
    }
    pub fn s_from_const<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: &Mv<CS, L>) -> S<'a, CS, L> { Signal::from_const(cs, v) }
    pub fn r_from_const<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: &Mv<CS, L>) -> S<'a, CS, L> {
        CMerkleProof { sibling: Signal::from_const(cs, &v.sibling), path: Signal::from_const(cs, &v.path) }
    }
    pub fn s_alloc<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: Option<&Mv<CS, L>>) -> S<'a, CS, L> { Signal::alloc(cs, v) }
    pub fn r_alloc<'a, CS: ConstraintSystem, L: Unsigned>(cs: &'a CS, v: Option<&Mv<CS, L>>) -> S<'a, CS, L> {
        let sibling = Signal::alloc(cs, v.map(|v| &v.sibling));
        let path = Signal::alloc(cs, v.map(|v| &v.path));
        CMerkleProof { sibling, path }
    }
    pub fn s_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> { s.switch(b, o) }
    pub fn r_switch<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, b: &CBool<'a, CS>, o: &S<'a, CS, L>) -> S<'a, CS, L> {
        CMerkleProof { sibling: s.sibling.switch(b, &o.sibling), path: s.path.switch(b, &o.path) }
    }
    pub fn s_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &S<'a, CS, L>) { s.assert_eq(o) }
    pub fn r_assert_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &S<'a, CS, L>) { s.sibling.assert_eq(&o.sibling); s.path.assert_eq(&o.path) }
    pub fn s_assert_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &Mv<CS, L>) { s.assert_const(o) }
    pub fn r_assert_const<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &Mv<CS, L>) { s.sibling.assert_const(&o.sibling); s.path.assert_const(&o.path) }
    pub fn s_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &S<'a, CS, L>) -> CBool<'a, CS> { s.is_eq(o) }
    pub fn r_is_eq<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>, o: &S<'a, CS, L>) -> CBool<'a, CS> {
        CBool(s.sibling.is_eq(&o.sibling).0 * s.path.is_eq(&o.path).0)
    }
    pub fn s_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { s.inputize() }
    pub fn r_inputize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) { s.sibling.inputize(); s.path.inputize() }
    pub fn s_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> { s.linearize() }
    pub fn r_linearize<'a, CS: ConstraintSystem, L: Unsigned>(s: &S<'a, CS, L>) -> Vec<CNum<'a, CS>> {
        let mut v = s.sibling.linearize();
        v.extend(s.path.linearize());
        v
    }
}

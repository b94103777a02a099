//! Types retrofitted through every form `fourleaf_retrofit!` offers. They are analysed
//! together with the crate (appended to a scratch copy of it as a module), so that the
//! rules see what the macro generates for users.
#![allow(dead_code)]
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::Read;

use adapt::Copied;
use de::{Deserialize, Error};
use ser::Serialize;
use unknown::UnknownFields;

pub struct Plain {
    pub foo: u32,
    pub bar: i64,
    pub many: Vec<String>,
    pub maybe: Option<bool>,
    pub last: [u16; 3],
}
fourleaf_retrofit!(struct Plain : {} {} {
    |_context, this|
    [1] foo: u32 = this.foo,
    [2] bar: i64 = this.bar,
    [3] many: Vec<String> = &this.many,
    [40] maybe: Option<bool> = this.maybe,
    [63] last: [u16; 3] = this.last,
    { Ok(Plain { foo: foo, bar: bar, many: many, maybe: maybe, last: last }) }
});

pub struct Empty;
fourleaf_retrofit!(struct Empty : {} {} {
    |_context, _this|
    { Ok(Empty) }
});

/// the constructor refuses some values
pub struct Checked {
    low: u64,
    high: u64,
}
fourleaf_retrofit!(struct Checked : {} {} {
    |context, this|
    [1] low: u64 = this.low,
    [2] high: u64 = this.high,
    {
        if low <= high {
            Ok(Checked { low: low, high: high })
        } else {
            Err(Error::InvalidValueMsg(context.to_string(), "low exceeds high"))
        }
    }
});

pub struct Delegating(pub Plain);
fourleaf_retrofit!(struct Delegating : {} {} {
    |_context, this|
    (*) inner: Plain = this.0,
    { Ok(Delegating(inner)) }
});

pub struct DelegatingBlob(pub Vec<u8>);
fourleaf_retrofit!(struct DelegatingBlob : {} {} {
    |_context, this|
    (*) inner: Vec<u8> = &this.0,
    { Ok(DelegatingBlob(inner)) }
});

pub struct Preserving {
    pub foo: u32,
    pub bar: u64,
    pub unknown: UnknownFields<'static>,
}
fourleaf_retrofit!(struct Preserving : {} {} {
    |_context, this|
    [1] foo: u32 = this.foo,
    [2] bar: u64 = this.bar,
    (?) unknown: Copied<UnknownFields<'static>> = &this.unknown,
    { Ok(Preserving { foo: foo, bar: bar, unknown: unknown.0 }) }
});

pub struct PreservingDirect<'a> {
    pub name: Cow<'a, str>,
    pub rest: UnknownFields<'a>,
}
fourleaf_retrofit!(struct PreservingDirect<'a> : {
    impl<'a> Serialize for PreservingDirect<'a>
} {
    impl<'a, R : Read, STYLE> Deserialize<R, STYLE>
    for PreservingDirect<'a>
    where UnknownFields<'a>: Deserialize<R, STYLE>,
          Cow<'a, str>: Deserialize<R, STYLE>
} {
    |_context, this|
    [5] name: Cow<'a, str> = &this.name,
    (?) rest: UnknownFields<'a> = this.rest,
    { Ok(PreservingDirect { name: name, rest: rest }) }
});

pub struct PreservingAll(pub UnknownFields<'static>);
fourleaf_retrofit!(struct PreservingAll : {} {} {
    |_context, this|
    (?) all: Copied<UnknownFields<'static>> = this.0,
    { Ok(PreservingAll(all.0)) }
});

pub enum Simple {
    Unit,
    Tuple(u32, u64),
    Struct { foo: Vec<u8>, bar: BTreeMap<String, u8> },
    Deleg(Checked),
    Rest(u8, UnknownFields<'static>),
}
fourleaf_retrofit!(enum Simple : {} {} {
    |_context|
    [0] Simple::Unit => { { Ok(Simple::Unit) } },
    [1] Simple::Tuple(a, b) => {
        [1] a: u32 = a,
        [2] b: u64 = b,
        { Ok(Simple::Tuple(a, b)) }
    },
    [12] Simple::Struct { ref foo, ref bar } => {
        [1] foo: Vec<u8> = foo,
        [7] bar: BTreeMap<String, u8> = bar,
        { Ok(Simple::Struct { foo: foo, bar: bar }) }
    },
    [300] Simple::Deleg(ref inner) => {
        (*) inner: Checked = inner,
        { Ok(Simple::Deleg(inner)) }
    },
    [18446744073709551615] Simple::Rest(a, ref unknown) => {
        [1] a: u8 = a,
        (?) unknown: Copied<UnknownFields<'static>> = unknown,
        { Ok(Simple::Rest(a, unknown.0)) }
    },
});

pub enum CatchAll {
    Foo(u32),
    Unknown(u64, UnknownFields<'static>),
}
fourleaf_retrofit!(enum CatchAll : {} {} {
    |_context|
    [1] CatchAll::Foo(a) => {
        [1] a: u32 = a,
        { Ok(CatchAll::Foo(a)) }
    },
    (?) CatchAll::Unknown(discriminant, ref fields) => {
        (=) discriminant: u64 = discriminant,
        (?) fields: Copied<UnknownFields<'static>> = fields,
        { Ok(CatchAll::Unknown(discriminant, fields.0)) }
    },
});

pub enum CatchFields {
    One(u16),
    Two,
    Other(u64, Option<u32>, Option<u32>),
}
fourleaf_retrofit!(enum CatchFields : {} {} {
    |_context|
    [1] CatchFields::One(a) => {
        [1] a: u16 = a,
        { Ok(CatchFields::One(a)) }
    },
    [2] CatchFields::Two => { { Ok(CatchFields::Two) } },
    (?) CatchFields::Other(d, ref a, ref b) => {
        (=) d: u64 = d,
        [1] a: Option<u32> = a,
        [2] b: Option<u32> = b,
        { Ok(CatchFields::Other(d, a, b)) }
    },
});

pub enum CatchDeleg {
    Zero,
    Other(u64, Plain),
}
fourleaf_retrofit!(enum CatchDeleg : {} {} {
    |_context|
    [0] CatchDeleg::Zero => { { Ok(CatchDeleg::Zero) } },
    (?) CatchDeleg::Other(d, ref p) => {
        (=) d: u64 = d,
        (*) p: Plain = p,
        { Ok(CatchDeleg::Other(d, p)) }
    },
});

/// foreign types go through a newtype
pub struct Foreign(pub Result<u32, u64>);
fourleaf_retrofit!(enum Foreign : {} {} {
    |_context|
    [1] Foreign(Ok(a)) => {
        [1] a: u32 = a,
        { Ok(Foreign(Ok(a))) }
    },
    [2] Foreign(Err(e)) => {
        [1] e: u64 = e,
        { Ok(Foreign(Err(e))) }
    },
});

pub enum Generic<'a, A, B> {
    A(A),
    B(B),
    C(Cow<'a, [u8]>),
}
fourleaf_retrofit!(enum Generic<'a, A, B> : {
    impl<'a, A : Serialize, B : Serialize> Serialize
    for Generic<'a, A, B>
} {
    impl<'a, R : Read, STYLE, A : Deserialize<R, STYLE>,
         B : Deserialize<R, STYLE>> Deserialize<R, STYLE>
    for Generic<'a, A, B> where Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context|
    [1] Generic::A(ref a) => {
        [1] a: A = a,
        { Ok(Generic::A(a)) }
    },
    [2] Generic::B(ref b) => {
        [1] b: B = b,
        { Ok(Generic::B(b)) }
    },
    [3] Generic::C(ref c) => {
        [1] c: Cow<'a, [u8]> = c,
        { Ok(Generic::C(c)) }
    },
});

pub struct Pair<A, B> {
    pub first: A,
    pub second: B,
}
fourleaf_retrofit!(struct Pair<A, B> : {
    impl<A : Serialize, B : Serialize> Serialize for Pair<A, B>
} {
    impl<R : Read, STYLE, A : Deserialize<R, STYLE>, B : Deserialize<R, STYLE>>
    Deserialize<R, STYLE> for Pair<A, B>
} {
    |_context, this|
    [1] first: A = this.first,
    [2] second: B = this.second,
    { Ok(Pair { first: first, second: second }) }
});

/// refers to itself
pub struct Tree {
    pub value: i32,
    pub children: Vec<Tree>,
}
fourleaf_retrofit!(struct Tree : {} {} {
    |_context, this|
    [1] value: i32 = this.value,
    [2] children: Vec<Tree> = &this.children,
    { Ok(Tree { value: value, children: children }) }
});

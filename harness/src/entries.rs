//! The code under test: `weedle::parse` and every public `Parse` impl, behind plain functions.

use crate::tree::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::types::*;
use weedle::*;

pub enum Out {
    Ok { tree: T, rest: usize },
    /// offset of the rest carried by the error
    Err { rest: usize },
    Panic(String),
    /// the returned rest is not a suffix of the input
    BadRest(String),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Ok { tree, rest } => format!("accepted, rest at {}: {}", rest, tree.show(700)),
            Out::Err { rest } => format!("refused, rest at {}", rest),
            Out::Panic(m) => format!("panic: {}", m),
            Out::BadRest(m) => m.clone(),
        }
    }
}

fn offset(input: &str, rest: &str) -> Option<usize> {
    let (a, b) = (input.as_ptr() as usize, rest.as_ptr() as usize);
    if b >= a && b + rest.len() == a + input.len() && input.is_char_boundary(b - a) {
        Some(b - a)
    } else if rest.is_empty() {
        // an empty rest may be any empty slice of the input
        (b >= a && b <= a + input.len()).then(|| input.len())
    } else {
        None
    }
}

fn err_out(s: &str, e: Err<(&str, ErrorKind)>) -> Out {
    match e {
        Err::Error((r, _)) | Err::Failure((r, _)) => match offset(s, r) {
            Some(rest) => Out::Err { rest },
            None => Out::BadRest(format!("the error holds {:?}, which is not a suffix of the input", r)),
        },
        Err::Incomplete(_) => Out::BadRest("`Incomplete` without a position on a complete input".into()),
    }
}

pub fn message(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn guarded(f: impl FnOnce() -> Out) -> Out {
    match crate::engine::inside(|| catch_unwind(AssertUnwindSafe(f))) {
        Ok(o) => o,
        Err(p) => Out::Panic(message(p)),
    }
}

pub fn run<'a, X: Parse<'a> + ToTree>(s: &'a str) -> Out {
    guarded(|| match X::parse(s) {
        Ok((r, x)) => match offset(s, r) {
            Some(rest) => Out::Ok { tree: x.t(), rest },
            None => Out::BadRest(format!("the rest {:?} is not a suffix of the input", r)),
        },
        Err(e) => err_out(s, e),
    })
}

/// `weedle::parse`
pub fn document(s: &str) -> Out {
    guarded(|| match weedle::parse(s) {
        Ok(x) => Out::Ok { tree: x.t(), rest: s.len() },
        Err(e) => err_out(s, e),
    })
}

pub type Fun = fn(&str) -> Out;
pub type Laws = fn(&[String]) -> Result<(usize, usize), String>;

macro_rules! table {
    ($name:ident; $($k:expr => $t:ty,)*) => {
        pub const $name: &[(&str, Fun)] = &[$(($k, |s| run::<$t>(s)),)*];
    };
    ($name:ident, $opts:ident; $($k:expr => $t:ty,)*) => {
        table! { $name; $($k => $t,)* }
        /// the same types where they are optional
        pub const $opts: &[(&str, Fun)] = &[$(($k, |s| run::<Option<$t>>(s)),)*];
        laws! { LAWS; $($k => $t,)* }
    };
}
macro_rules! laws {
    ($name:ident; $($k:expr => $t:ty,)*) => {
        /// the laws of values on the trees of a few texts
        pub const $name: &[(&str, Laws)] = &[$(($k, |t| crate::props::history::laws::<$t>(t)),)*];
    };
}

// One entry per public grammar type; the name is that of the reference rule.
table! { TYPES, OPTIONAL;
    "Definitions" => Definitions<'_>,
    "Definition" => Definition<'_>,
    "CallbackDefinition" => CallbackDefinition<'_>,
    "CallbackInterfaceDefinition" => CallbackInterfaceDefinition<'_>,
    "InterfaceDefinition" => InterfaceDefinition<'_>,
    "InterfaceMixinDefinition" => InterfaceMixinDefinition<'_>,
    "NamespaceDefinition" => NamespaceDefinition<'_>,
    "DictionaryDefinition" => DictionaryDefinition<'_>,
    "PartialInterfaceDefinition" => PartialInterfaceDefinition<'_>,
    "PartialInterfaceMixinDefinition" => PartialInterfaceMixinDefinition<'_>,
    "PartialDictionaryDefinition" => PartialDictionaryDefinition<'_>,
    "PartialNamespaceDefinition" => PartialNamespaceDefinition<'_>,
    "EnumDefinition" => EnumDefinition<'_>,
    "TypedefDefinition" => TypedefDefinition<'_>,
    "IncludesStatementDefinition" => IncludesStatementDefinition<'_>,
    "ImplementsDefinition" => ImplementsDefinition<'_>,
    "EnumValueList" => EnumValueList<'_>,
    "Inheritance" => Inheritance<'_>,
    "InterfaceMembers" => InterfaceMembers<'_>,
    "InterfaceMember" => InterfaceMember<'_>,
    "ConstMember" => ConstMember<'_>,
    "AttributeInterfaceMember" => AttributeInterfaceMember<'_>,
    "ConstructorInterfaceMember" => ConstructorInterfaceMember<'_>,
    "OperationInterfaceMember" => OperationInterfaceMember<'_>,
    "IterableInterfaceMember" => IterableInterfaceMember<'_>,
    "SingleTypedIterable" => SingleTypedIterable<'_>,
    "DoubleTypedIterable" => DoubleTypedIterable<'_>,
    "AsyncIterableInterfaceMember" => AsyncIterableInterfaceMember<'_>,
    "SingleTypedAsyncIterable" => SingleTypedAsyncIterable<'_>,
    "DoubleTypedAsyncIterable" => DoubleTypedAsyncIterable<'_>,
    "MaplikeInterfaceMember" => MaplikeInterfaceMember<'_>,
    "SetlikeInterfaceMember" => SetlikeInterfaceMember<'_>,
    "StringifierMember" => StringifierMember<'_>,
    "Special" => Special,
    "StringifierOrInheritOrStatic" => StringifierOrInheritOrStatic,
    "StringifierOrStatic" => StringifierOrStatic,
    "MixinMembers" => MixinMembers<'_>,
    "MixinMember" => MixinMember<'_>,
    "OperationMixinMember" => OperationMixinMember<'_>,
    "AttributeMixinMember" => AttributeMixinMember<'_>,
    "NamespaceMembers" => NamespaceMembers<'_>,
    "NamespaceMember" => NamespaceMember<'_>,
    "ConstNamespaceMember" => ConstNamespaceMember<'_>,
    "OperationNamespaceMember" => OperationNamespaceMember<'_>,
    "AttributeNamespaceMember" => AttributeNamespaceMember<'_>,
    "DictionaryMembers" => DictionaryMembers<'_>,
    "DictionaryMember" => DictionaryMember<'_>,
    "ArgumentList" => ArgumentList<'_>,
    "Argument" => Argument<'_>,
    "SingleArgument" => SingleArgument<'_>,
    "VariadicArgument" => VariadicArgument<'_>,
    "ExtendedAttributeList" => ExtendedAttributeList<'_>,
    "ExtendedAttribute" => ExtendedAttribute<'_>,
    "ExtendedAttributeArgList" => ExtendedAttributeArgList<'_>,
    "ExtendedAttributeNamedArgList" => ExtendedAttributeNamedArgList<'_>,
    "ExtendedAttributeIdentList" => ExtendedAttributeIdentList<'_>,
    "ExtendedAttributeIdent" => ExtendedAttributeIdent<'_>,
    "ExtendedAttributeWildCard" => ExtendedAttributeWildCard<'_>,
    "ExtendedAttributeNoArgs" => ExtendedAttributeNoArgs<'_>,
    "IdentifierOrString" => IdentifierOrString<'_>,
    "IdentifierList" => IdentifierList<'_>,
    "Type" => Type<'_>,
    "SingleType" => SingleType<'_>,
    "NonAnyType" => NonAnyType<'_>,
    "UnionType" => UnionType<'_>,
    "NullableUnion" => MayBeNull<UnionType<'_>>,
    "NullableInteger" => MayBeNull<IntegerType>,
    "NullableFloat" => MayBeNull<FloatingPointType>,
    "NullableIdentifier" => MayBeNull<Identifier<'_>>,
    "NullableRecord" => MayBeNull<RecordType<'_>>,
    "SequenceType" => SequenceType<'_>,
    "FrozenArrayType" => FrozenArrayType<'_>,
    "PromiseType" => PromiseType<'_>,
    "RecordType" => RecordType<'_>,
    "RecordKeyType" => RecordKeyType<'_>,
    "IntegerType" => IntegerType,
    "LongLongType" => LongLongType,
    "LongType" => LongType,
    "ShortType" => ShortType,
    "FloatingPointType" => FloatingPointType,
    "FloatType" => FloatType,
    "DoubleType" => DoubleType,
    "UnionMemberType" => UnionMemberType<'_>,
    "ConstType" => ConstType<'_>,
    "ReturnType" => ReturnType<'_>,
    "AttributedType" => AttributedType<'_>,
    "AttributedNonAnyType" => AttributedNonAnyType<'_>,
    "Identifier" => Identifier<'_>,
    "StringLit" => StringLit<'_>,
    "BooleanLit" => BooleanLit,
    "DefaultValue" => DefaultValue<'_>,
    "ConstValue" => ConstValue<'_>,
    "EmptyArrayLit" => EmptyArrayLit,
    "EmptyDictionaryLit" => EmptyDictionaryLit,
    "Default" => Default<'_>,
    "Args" => Parenthesized<ArgumentList<'_>>,
    "ParenIdents" => Parenthesized<IdentifierList<'_>>,
    "InterfaceBody" => Braced<InterfaceMembers<'_>>,
    "EnumBody" => Braced<EnumValueList<'_>>,
}

// Literal parsers on their own are not float-first, so they have their own oracle (C06).
table! { LITS;
    "DecLit" => DecLit<'_>,
    "HexLit" => HexLit<'_>,
    "OctLit" => OctLit<'_>,
    "IntegerLit" => IntegerLit<'_>,
    "FloatValueLit" => FloatValueLit<'_>,
    "FloatLit" => FloatLit<'_>,
    "StringLit" => StringLit<'_>,
    "BooleanLit" => BooleanLit,
    "DefaultValue" => DefaultValue<'_>,
    "ConstValue" => ConstValue<'_>,
    "Identifier" => Identifier<'_>,
}

// Instances of the generic building blocks.
table! { GENERICS;
    "g.OptIdent" => Option<Identifier<'_>>,
    "g.OptStr" => Option<StringLit<'_>>,
    "g.OptLong" => Option<term!(long)>,
    "g.VecIdent" => Vec<Identifier<'_>>,
    "g.VecStr" => Vec<StringLit<'_>>,
    "g.PunctIdentComma" => Punctuated<Identifier<'_>, term!(,)>,
    "g.PunctStrSemi" => Punctuated<StringLit<'_>, term!(;)>,
    "g.PunctIdentOr" => Punctuated<Identifier<'_>, term!(or)>,
    "g.PunctTypeOr" => Punctuated<Type<'_>, term!(or)>,
    "g.PunctArgComma" => Punctuated<Argument<'_>, term!(,)>,
    "g.PunctQComma" => Punctuated<Special, term!(,)>,
    "g.Punct1IdentComma" => PunctuatedNonEmpty<Identifier<'_>, term!(,)>,
    "g.Punct1StrComma" => PunctuatedNonEmpty<StringLit<'_>, term!(,)>,
    "g.Punct1IdentOr" => PunctuatedNonEmpty<Identifier<'_>, term!(or)>,
    "g.Punct1TypeSemi" => PunctuatedNonEmpty<Type<'_>, term!(;)>,
    "g.BoxIdent" => Box<Identifier<'_>>,
    "g.ParenIdent" => Parenthesized<Identifier<'_>>,
    "g.ParenOptType" => Parenthesized<Option<Type<'_>>>,
    "g.ParenPunct" => Parenthesized<Punctuated<Identifier<'_>, term!(,)>>,
    "g.BracketStr" => Bracketed<StringLit<'_>>,
    "g.BracketPunct" => Bracketed<Punctuated<StringLit<'_>, term!(;)>>,
    "g.BracedVec" => Braced<Vec<Identifier<'_>>>,
    "g.BracedPunct1" => Braced<PunctuatedNonEmpty<Identifier<'_>, term!(,)>>,
    "g.GenericsType" => Generics<Box<Type<'_>>>,
    "g.GenericsPunct" => Generics<Punctuated<Type<'_>, term!(or)>>,
    "g.TupIdentStr" => (Identifier<'_>, StringLit<'_>),
    "g.TupLongIdent" => (term!(long), Identifier<'_>),
    "g.Tup3" => (Identifier<'_>, term!(,), Identifier<'_>),
    "g.Tup3Opt" => (Option<term!(readonly)>, Identifier<'_>, Option<Default<'_>>),
    "g.TupVecStr" => (Vec<Identifier<'_>>, StringLit<'_>),
    "g.VecTup" => Vec<(Identifier<'_>, StringLit<'_>)>,
    "g.OptTup" => Option<(Identifier<'_>, term!(,), Identifier<'_>)>,
    "g.VecParenPunct" => Vec<Parenthesized<Punctuated<Identifier<'_>, term!(,)>>>,
    "g.PunctBracket" => Punctuated<Bracketed<StringLit<'_>>, term!(,)>,
    "g.Punct1Tup" => PunctuatedNonEmpty<(Identifier<'_>, StringLit<'_>), term!(,)>,
}

// Values of these compared on their own: what a type says of itself need not be what its parts say.
laws! { LIT_LAWS;
    "DecLit" => DecLit<'_>,
    "HexLit" => HexLit<'_>,
    "OctLit" => OctLit<'_>,
    "IntegerLit" => IntegerLit<'_>,
    "FloatValueLit" => FloatValueLit<'_>,
    "FloatLit" => FloatLit<'_>,
}
laws! { GEN_LAWS;
    "g.NullIdent" => MayBeNull<Identifier<'_>>,
    "g.NullInteger" => MayBeNull<IntegerType>,
    "g.NullFloat" => MayBeNull<FloatingPointType>,
    "g.NullBoolean" => MayBeNull<term!(boolean)>,
    "g.NullUnion" => MayBeNull<UnionType<'_>>,
    "g.NullSequence" => MayBeNull<SequenceType<'_>>,
    "g.OptIdent" => Option<Identifier<'_>>,
    "g.OptStr" => Option<StringLit<'_>>,
    "g.OptLong" => Option<term!(long)>,
    "g.VecIdent" => Vec<Identifier<'_>>,
    "g.VecStr" => Vec<StringLit<'_>>,
    "g.PunctIdentComma" => Punctuated<Identifier<'_>, term!(,)>,
    "g.PunctStrSemi" => Punctuated<StringLit<'_>, term!(;)>,
    "g.PunctIdentOr" => Punctuated<Identifier<'_>, term!(or)>,
    "g.PunctTypeOr" => Punctuated<Type<'_>, term!(or)>,
    "g.PunctArgComma" => Punctuated<Argument<'_>, term!(,)>,
    "g.PunctQComma" => Punctuated<Special, term!(,)>,
    "g.Punct1IdentComma" => PunctuatedNonEmpty<Identifier<'_>, term!(,)>,
    "g.Punct1StrComma" => PunctuatedNonEmpty<StringLit<'_>, term!(,)>,
    "g.Punct1IdentOr" => PunctuatedNonEmpty<Identifier<'_>, term!(or)>,
    "g.Punct1TypeSemi" => PunctuatedNonEmpty<Type<'_>, term!(;)>,
    "g.BoxIdent" => Box<Identifier<'_>>,
    "g.ParenIdent" => Parenthesized<Identifier<'_>>,
    "g.ParenOptType" => Parenthesized<Option<Type<'_>>>,
    "g.ParenPunct" => Parenthesized<Punctuated<Identifier<'_>, term!(,)>>,
    "g.BracketStr" => Bracketed<StringLit<'_>>,
    "g.BracketPunct" => Bracketed<Punctuated<StringLit<'_>, term!(;)>>,
    "g.BracedVec" => Braced<Vec<Identifier<'_>>>,
    "g.BracedPunct1" => Braced<PunctuatedNonEmpty<Identifier<'_>, term!(,)>>,
    "g.GenericsType" => Generics<Box<Type<'_>>>,
    "g.GenericsPunct" => Generics<Punctuated<Type<'_>, term!(or)>>,
    "g.TupIdentStr" => (Identifier<'_>, StringLit<'_>),
    "g.TupLongIdent" => (term!(long), Identifier<'_>),
    "g.Tup3" => (Identifier<'_>, term!(,), Identifier<'_>),
    "g.Tup3Opt" => (Option<term!(readonly)>, Identifier<'_>, Option<Default<'_>>),
    "g.TupVecStr" => (Vec<Identifier<'_>>, StringLit<'_>),
    "g.VecTup" => Vec<(Identifier<'_>, StringLit<'_>)>,
    "g.OptTup" => Option<(Identifier<'_>, term!(,), Identifier<'_>)>,
    "g.VecParenPunct" => Vec<Parenthesized<Punctuated<Identifier<'_>, term!(,)>>>,
    "g.PunctBracket" => Punctuated<Bracketed<StringLit<'_>>, term!(,)>,
    "g.Punct1Tup" => PunctuatedNonEmpty<(Identifier<'_>, StringLit<'_>), term!(,)>,
}

// ---- element and separator types of our own, for C17: one character each, no trivia ----

/// one ASCII digit
#[derive(Clone, Debug, PartialEq)]
pub struct Dig(pub char);
/// one or more `z`
#[derive(Clone, Debug, PartialEq)]
pub struct Zs(pub usize);
/// `~`
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tilde;

/// one upper case letter, a value of 320 bytes
#[derive(Clone, Debug, PartialEq)]
pub struct Wide(pub [u64; 40]);
/// two or more `z`, as a separator
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Zz;
/// one or more `y`, borrowed
#[derive(Clone, Debug, PartialEq)]
pub struct Ys<'a>(pub &'a str);

impl<'a> Parse<'a> for Wide {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        match i.chars().next() {
            Some(c) if c.is_ascii_uppercase() => Ok((&i[1..], Wide([c as u64; 40]))),
            _ => Err(Err::Error((i, ErrorKind::Alpha))),
        }
    }
}
impl<'a> Parse<'a> for Zz {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        let n = i.bytes().take_while(|b| *b == b'z').count();
        if n < 2 {
            return Err(Err::Error((i, ErrorKind::Char)));
        }
        Ok((&i[n..], Zz))
    }
}
impl<'a> Parse<'a> for Ys<'a> {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        let n = i.bytes().take_while(|b| *b == b'y').count();
        if n == 0 {
            return Err(Err::Error((&i[i.len()..], ErrorKind::Char)));
        }
        Ok((&i[n..], Ys(&i[..n])))
    }
}
impl ToTree for Wide {
    fn t(&self) -> T {
        assert!(self.0.iter().all(|x| *x == self.0[0]));
        leaf(&(self.0[0] as u8 as char).to_string())
    }
}
impl ToTree for Ys<'_> {
    fn t(&self) -> T {
        leaf(self.0)
    }
}
impl ToTree for Zz {
    fn t(&self) -> T {
        leaf("zz")
    }
}
impl Term for Zz {
    const SP: &'static str = "zz";
}

impl<'a> Parse<'a> for Dig {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        match i.chars().next() {
            Some(c) if c.is_ascii_digit() => Ok((&i[1..], Dig(c))),
            _ => Err(Err::Error((i, ErrorKind::Digit))),
        }
    }
}
impl<'a> Parse<'a> for Zs {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        let n = i.bytes().take_while(|b| *b == b'z').count();
        if n == 0 {
            return Err(Err::Error((i, ErrorKind::Char)));
        }
        Ok((&i[n..], Zs(n)))
    }
}
impl<'a> Parse<'a> for Tilde {
    fn parse(i: &'a str) -> IResult<&'a str, Self> {
        match i.strip_prefix('~') {
            Some(r) => Ok((r, Tilde)),
            None => Err(Err::Error((i, ErrorKind::Char))),
        }
    }
}
impl ToTree for Dig {
    fn t(&self) -> T {
        leaf(&self.0.to_string())
    }
}
impl ToTree for Zs {
    fn t(&self) -> T {
        leaf(&"z".repeat(self.0))
    }
}
impl ToTree for Tilde {
    fn t(&self) -> T {
        leaf("~")
    }
}
impl Term for Tilde {
    const SP: &'static str = "~";
}

table! { CUSTOM;
    "c.OptDig" => Option<Dig>,
    "c.OptZs" => Option<Zs>,
    "c.VecDig" => Vec<Dig>,
    "c.VecZs" => Vec<Zs>,
    "c.BoxDig" => Box<Dig>,
    "c.Pair" => (Dig, Zs),
    "c.Triple" => (Dig, Tilde, Zs),
    "c.PunctDig" => Punctuated<Dig, Tilde>,
    "c.PunctZs" => Punctuated<Zs, Tilde>,
    "c.PunctDigComma" => Punctuated<Dig, term!(,)>,
    "c.Punct1Dig" => PunctuatedNonEmpty<Dig, Tilde>,
    "c.Punct1Zs" => PunctuatedNonEmpty<Zs, Tilde>,
    "c.Punct1PairComma" => PunctuatedNonEmpty<(Dig, Zs), term!(,)>,
    "c.VecPair" => Vec<(Dig, Zs)>,
    "c.ParenDig" => Parenthesized<Dig>,
    "c.ParenVec" => Parenthesized<Vec<Dig>>,
    "c.BracketPunct" => Bracketed<Punctuated<Zs, Tilde>>,
    "c.BracedPunct1" => Braced<PunctuatedNonEmpty<Dig, Tilde>>,
    "c.GenericsOpt" => Generics<Option<Zs>>,
    "c.OptPair" => Option<(Dig, Zs)>,
    "c.PunctVecPair" => Punctuated<(Dig, Dig), Tilde>,
    // elements without size, large ones, boxes, borrowed ones, nested blocks
    "c.OptTilde" => Option<Tilde>,
    "c.VecTilde" => Vec<Tilde>,
    "c.BoxTilde" => Box<Tilde>,
    "c.PunctTildeComma" => Punctuated<Tilde, term!(,)>,
    "c.Punct1TildeComma" => PunctuatedNonEmpty<Tilde, term!(,)>,
    "c.PunctTildeTilde" => Punctuated<Dig, Zz>,
    "c.Punct1Zz" => PunctuatedNonEmpty<Dig, Zz>,
    "c.PunctTermTerm" => Punctuated<term!(<), term!(,)>,
    "c.Punct1TermTerm" => PunctuatedNonEmpty<term!(<), term!(,)>,
    "c.VecTerm" => Vec<term!(,)>,
    "c.OptTerm" => Option<term!(,)>,
    "c.VecWide" => Vec<Wide>,
    "c.PunctWide" => Punctuated<Wide, Tilde>,
    "c.Punct1Wide" => PunctuatedNonEmpty<Wide, Tilde>,
    "c.OptWide" => Option<Wide>,
    "c.BoxBoxWide" => Box<Box<Wide>>,
    "c.PunctBox" => Punctuated<Box<Dig>, Tilde>,
    "c.Punct1Box" => PunctuatedNonEmpty<Box<Dig>, Tilde>,
    "c.VecBox" => Vec<Box<Dig>>,
    "c.PunctYs" => Punctuated<Ys<'_>, Tilde>,
    "c.Punct1Ys" => PunctuatedNonEmpty<Ys<'_>, term!(,)>,
    "c.VecPairYs" => Vec<(Ys<'_>, Dig)>,
    "c.TripleOpt" => (Option<Dig>, Zs, Option<Tilde>),
    "c.TripleVec" => (Vec<Dig>, Option<Tilde>, Vec<Zs>),
    "c.PairOpt" => (Option<Zs>, Option<Dig>),
    "c.PairNested" => ((Dig, Zs), (Tilde, Option<Dig>)),
    "c.OptVec" => Option<Vec<Dig>>,
    "c.OptParen" => Option<Parenthesized<Dig>>,
    "c.VecGenerics" => Vec<Generics<Dig>>,
    "c.BracedBraced" => Braced<Braced<Vec<Dig>>>,
    "c.ParenTilde" => Parenthesized<Tilde>,
    "c.BracketWide" => Bracketed<Vec<Wide>>,
    "c.PunctParenPunct" => Punctuated<Parenthesized<Punctuated<Dig, Tilde>>, term!(,)>,
    "c.Punct1Bracket" => PunctuatedNonEmpty<Bracketed<Vec<Zs>>, Tilde>,
    "c.PunctTriple" => Punctuated<(Dig, Tilde, Dig), Tilde>,
    "c.Punct1Triple" => PunctuatedNonEmpty<(Dig, Tilde, Dig), Tilde>,
    "c.GenericsBox" => Generics<Box<(Dig, Tilde, Zs)>>,
}

type O<X> = Option<X>;
type B<X> = Box<X>;
type V<X> = Vec<X>;
type Pa<X> = Parenthesized<X>;
type Bk<X> = Bracketed<X>;
type Bc<X> = Braced<X>;
type G<X> = Generics<X>;
type P<X> = Punctuated<X, Tilde>;
type N<X> = PunctuatedNonEmpty<X, Tilde>;
type Pc<X> = Punctuated<X, weedle::term::Comma>;
type Nc<X> = PunctuatedNonEmpty<X, weedle::term::Comma>;
type L<X> = (X, Zs);
type R<X> = (Dig, X);
type M3<X> = (Zs, X, Tilde);
type F3<X> = (X, Tilde, Dig);
type E3<X> = (Dig, Zs, X);

/// Every block around every block around a few elements of our own: names of the blocks from the
/// outside in, and the parser.
pub fn composed() -> &'static Vec<([&'static str; 3], Fun)> {
    static C: std::sync::OnceLock<Vec<([&'static str; 3], Fun)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<([&'static str; 3], Fun)> = vec![];
        macro_rules! inner {
            ($w:ident: $($u:ident)*) => {
                $(
                    v.push(([stringify!($w), stringify!($u), "Dig"], |s| run::<$w<$u<Dig>>>(s)));
                    v.push(([stringify!($w), stringify!($u), "Zs"], |s| run::<$w<$u<Zs>>>(s)));
                    v.push(([stringify!($w), stringify!($u), "Tilde"], |s| run::<$w<$u<Tilde>>>(s)));
                )*
            };
        }
        macro_rules! outer {
            ($($w:ident)*) => { $( inner!($w: O B V Pa Bk Bc G P N Pc Nc L R M3 F3 E3); )* };
        }
        outer!(O B V Pa Bk Bc G P N Pc Nc L R M3 F3 E3);
        v
    })
}

macro_rules! term_table {
    ($($m:tt $ty:ident;)*) => {
        /// (spelling, type parser, parser of the type named by `term!`)
        pub fn terms() -> Vec<(&'static str, Fun, Fun)> {
            vec![$((<weedle::term::$ty as Term>::SP, |s| run::<weedle::term::$ty>(s), |s| run::<weedle::term!($m)>(s)),)*]
        }
        pub const TERM_LAWS: &[(&str, Laws)] = &[$((<weedle::term::$ty as Term>::SP, |t| crate::props::history::laws::<weedle::term::$ty>(t)),)*];
    };
}
term_table! {
    OpenParen OpenParen; CloseParen CloseParen; OpenBracket OpenBracket; CloseBracket CloseBracket;
    OpenBrace OpenBrace; CloseBrace CloseBrace;
    , Comma; - Minus; . Dot; ... Ellipsis; : Colon; ; SemiColon; < LessThan; = Assign; > GreaterThan;
    ? QMark; * Asterisk;
    or Or; optional Optional; async Async; attribute Attribute; callback Callback; const Const;
    deleter Deleter; dictionary Dictionary; enum Enum; getter Getter; includes Includes;
    inherit Inherit; interface Interface; iterable Iterable; maplike Maplike; namespace Namespace;
    partial Partial; required Required; setlike Setlike; setter Setter; static Static;
    stringifier Stringifier; typedef Typedef; unrestricted Unrestricted; symbol Symbol;
    ByteString ByteString; DOMString DOMString; FrozenArray FrozenArray; Infinity Infinity; NaN NaN;
    USVString USVString; any Any; boolean Boolean; byte Byte; double Double; false False;
    float Float; long Long; null Null; object Object; octet Octet; sequence Sequence; short Short;
    true True; unsigned Unsigned; undefined Undefined; record Record; ArrayBuffer ArrayBuffer;
    DataView DataView; Int8Array Int8Array; Int16Array Int16Array; Int32Array Int32Array;
    Uint8Array Uint8Array; Uint16Array Uint16Array; Uint32Array Uint32Array;
    Uint8ClampedArray Uint8ClampedArray; Float32Array Float32Array; Float64Array Float64Array;
    ArrayBufferView ArrayBufferView; BufferSource BufferSource; Promise Promise; Error Error;
    readonly ReadOnly; mixin Mixin; implements Implements; legacycaller LegacyCaller;
    constructor Constructor;
}
/// `-Infinity` is two tokens for the macro
pub fn neg_infinity() -> (&'static str, Fun, Fun) {
    ("-Infinity", |s| run::<weedle::term::NegInfinity>(s), |s| run::<weedle::term!(-Infinity)>(s))
}

pub fn find(name: &str) -> Option<Fun> {
    if name == "document" {
        return Some(document);
    }
    if let Some(n) = name.strip_prefix("opt.") {
        return OPTIONAL.iter().find(|(m, _)| *m == n).map(|(_, f)| *f);
    }
    [TYPES, GENERICS, CUSTOM].iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
}

//! Fixed starting points: one small document per construct (edited exhaustively by C07 and C09),
//! contexts in which a slot is filled, and documents scaled along one dimension.

pub const DOCS: &[&str] = &[
    "typedef long a;",
    "typedef unsigned long long a;",
    "typedef unrestricted double? a;",
    "typedef any a;",
    "typedef ( long or DOMString ? or ( Foo or sequence < any > ) ? ) a;",
    "typedef sequence < FrozenArray < octet > > ? a;",
    "typedef Promise < undefined > a;",
    "typedef record < DOMString , ( A or B ) > ? a;",
    "typedef record < Foo , any > a;",
    "typedef [ Clamp ] short a;",
    "[ A ] typedef [ B = \"s\" ] byte ? a;",
    "callback C = undefined ( ) ;",
    "callback C = ( A or B ) ? ( long a , optional DOMString b = \"x\" , any ... c ) ;",
    "callback interface C { } ;",
    "callback interface C : D { const long A = 1 ; } ;",
    "interface I { } ;",
    "interface I : J { attribute long a ; readonly attribute any b ; } ;",
    "interface I { static readonly attribute long a ; inherit attribute long b ; stringifier attribute DOMString c ; } ;",
    "interface I { constructor ( ) ; constructor ( long a ) ; } ;",
    "interface I { undefined f ( ) ; static long g ( long a ) ; stringifier DOMString ( ) ; } ;",
    "interface I { getter DOMString ( unsigned long i ) ; setter undefined s ( long i , any v ) ; } ;",
    "interface I { deleter undefined ( DOMString n ) ; legacycaller any ( any x ) ; static getter long x ( ) ; } ;",
    "interface I { iterable < long > ; iterable < DOMString , any > ; } ;",
    "interface I { async iterable < long > ; async iterable < long , any > ; } ;",
    "interface I { async iterable < long > ( optional Opt o = { } ) ; async iterable < A , B > ( ) ; } ;",
    "interface I { maplike < long , any > ; readonly maplike < [ A ] A , [ B ] B > ; } ;",
    "interface I { setlike < long > ; readonly setlike < A > ; stringifier ; } ;",
    "interface I { const boolean A = true ; const double B = -1.5e3 ; const Foo ? C = null ; } ;",
    "interface I { const octet A = 0x1F ; const byte B = -Infinity ; const float C = NaN ; const float D = Infinity ; } ;",
    "interface I { [ A ] const long A = 017 ; [ B ] attribute [ C ] long b ; [ D ] stringifier ; } ;",
    "interface I { [ A ] undefined f ( [ B ] optional [ C ] long a = 5 , [ D ] long ... b ) ; } ;",
    "interface I { [ A ] iterable < [ B ] long > ; [ C ] readonly setlike < [ D ] long > ; } ;",
    "interface mixin M { } ;",
    "interface mixin M { const long A = 1 ; stringifier readonly attribute long a ; long f ( ) ; stringifier ; } ;",
    "namespace N { } ;",
    "namespace N { const long A = 1 ; readonly attribute long a ; long f ( long x ) ; any ( ) ; } ;",
    "dictionary D { } ;",
    "dictionary D : E { required long a ; long b = 5 ; sequence < long > c = [ ] ; F d = { } ; } ;",
    "dictionary D { DOMString a = \"x\" ; boolean b = false ; double c = .5 ; E ? d = null ; } ;",
    "partial interface I { attribute long a ; } ;",
    "partial interface mixin M { undefined f ( ) ; } ;",
    "partial dictionary D { long a ; } ;",
    "partial namespace N { long f ( ) ; } ;",
    "enum E { \"a\" } ;",
    "enum E { \"a\" , \"\" , \"b c\" , } ;",
    "A includes B ;",
    "[ X ] A includes B ;",
    "A implements B ;",
    "[ Exposed = Window , Y ] interface I { } ;",
    "[ Exposed = ( Window , Worker ) ] interface I { } ;",
    "[ Exposed = * , Z = \"str\" ] interface I { } ;",
    "[ Constructor ( long a , optional any b = null ) ] interface I { } ;",
    "[ NamedConstructor = Image ( DOMString src ) ] interface I { } ;",
    "[ A ( ) , B = C ( ) , D = ( ) ] namespace N { } ;",
    "[ ] enum E { \"x\" } ;",
    "typedef long a ; typedef short b ; A includes B ;",
];

/// (rule normally found here, text before, text after)
pub type Ctx = (&'static str, &'static str, &'static str);

pub const TYPE_CTX: &[Ctx] = &[
    ("AttributedType", "typedef", "x ;"),
    ("AttributedType", "interface I { attribute", "x ; } ;"),
    ("AttributedType", "interface I { static readonly attribute", "x ; } ;"),
    ("ReturnType", "interface I {", "f ( ) ; } ;"),
    ("ReturnType", "interface I { static", "f ( long a ) ; } ;"),
    ("ReturnType", "interface I { getter", "( long a ) ; } ;"),
    ("AttributedType", "interface I { undefined f (", "x ) ; } ;"),
    ("AttributedType", "interface I { undefined f ( long a , optional", "x = null ) ; } ;"),
    ("Type", "interface I { undefined f (", "... x ) ; } ;"),
    ("AttributedType", "interface I { constructor (", "x ) ; } ;"),
    ("AttributedType", "interface I { iterable <", "> ; } ;"),
    ("AttributedType", "interface I { iterable <", ", long > ; } ;"),
    ("AttributedType", "interface I { iterable < long ,", "> ; } ;"),
    ("AttributedType", "interface I { async iterable <", "> ; } ;"),
    ("AttributedType", "interface I { async iterable < A ,", "> ( ) ; } ;"),
    ("AttributedType", "interface I { maplike <", ", long > ; } ;"),
    ("AttributedType", "interface I { readonly maplike < long ,", "> ; } ;"),
    ("AttributedType", "interface I { setlike <", "> ; } ;"),
    ("ConstType", "interface I { const", "x = 1 ; } ;"),
    ("ConstType", "namespace N { const", "x = null ; } ;"),
    ("ConstType", "interface mixin M { const", "x = 1.5 ; } ;"),
    ("AttributedType", "interface mixin M { readonly attribute", "x ; } ;"),
    ("ReturnType", "interface mixin M {", "f ( ) ; } ;"),
    ("ReturnType", "namespace N {", "f ( ) ; } ;"),
    ("AttributedType", "namespace N { readonly attribute", "x ; } ;"),
    ("Type", "dictionary D {", "x ; } ;"),
    ("Type", "dictionary D { required", "x ; } ;"),
    ("Type", "partial dictionary D {", "x = null ; } ;"),
    ("ReturnType", "callback C =", "( ) ;"),
    ("AttributedType", "callback C = any (", "x ) ;"),
    ("Type", "typedef sequence <", "> x ;"),
    ("Type", "typedef FrozenArray <", "> x ;"),
    ("ReturnType", "typedef Promise <", "> x ;"),
    ("RecordKeyType", "typedef record <", ", long > x ;"),
    ("Type", "typedef record < USVString ,", "> ? x ;"),
    ("UnionMemberType", "typedef (", "or long ) x ;"),
    ("UnionMemberType", "typedef ( long or", ") ? x ;"),
    ("UnionMemberType", "typedef ( A or ( B or", ") or C ) x ;"),
    ("AttributedType", "[ A (", "x ) ] typedef long y ;"),
];

pub const MEMBER_CTX: &[Ctx] = &[
    ("InterfaceMembers", "interface I {", "} ;"),
    ("InterfaceMembers", "interface I : J {", "} ;"),
    ("InterfaceMembers", "callback interface I {", "} ;"),
    ("InterfaceMembers", "partial interface I {", "} ;"),
    ("MixinMembers", "interface mixin M {", "} ;"),
    ("MixinMembers", "partial interface mixin M {", "} ;"),
    ("NamespaceMembers", "namespace N {", "} ;"),
    ("NamespaceMembers", "partial namespace N {", "} ;"),
    ("DictionaryMembers", "dictionary D {", "} ;"),
    ("DictionaryMembers", "dictionary D : E {", "} ;"),
    ("DictionaryMembers", "partial dictionary D {", "} ;"),
];

pub const ARG_CTX: &[Ctx] = &[
    ("ArgumentList", "callback C = undefined (", ") ;"),
    ("ArgumentList", "interface I { undefined f (", ") ; } ;"),
    ("ArgumentList", "interface I { getter any (", ") ; } ;"),
    ("ArgumentList", "interface I { static ( A or B ) f (", ") ; } ;"),
    ("ArgumentList", "interface I { constructor (", ") ; } ;"),
    ("ArgumentList", "interface I { async iterable < long > (", ") ; } ;"),
    ("ArgumentList", "interface I { async iterable < long , any > (", ") ; } ;"),
    ("ArgumentList", "interface mixin M { long f (", ") ; } ;"),
    ("ArgumentList", "namespace N { long f (", ") ; } ;"),
    ("ArgumentList", "[ A (", ") ] interface I { } ;"),
    ("ArgumentList", "[ A = B (", ") , C ] interface I { } ;"),
];

pub const ATTR_CTX: &[Ctx] = &[
    ("ExtendedAttributeList", "", "typedef long x ;"),
    ("ExtendedAttributeList", "typedef", "long x ;"),
    ("ExtendedAttributeList", "", "callback C = any ( ) ;"),
    ("ExtendedAttributeList", "", "callback interface C { } ;"),
    ("ExtendedAttributeList", "", "interface I { } ;"),
    ("ExtendedAttributeList", "", "interface mixin M { } ;"),
    ("ExtendedAttributeList", "", "namespace N { } ;"),
    ("ExtendedAttributeList", "", "dictionary D { } ;"),
    ("ExtendedAttributeList", "", "partial interface I { } ;"),
    ("ExtendedAttributeList", "", "partial interface mixin M { } ;"),
    ("ExtendedAttributeList", "", "partial dictionary D { } ;"),
    ("ExtendedAttributeList", "", "partial namespace N { } ;"),
    ("ExtendedAttributeList", "", "enum E { \"a\" } ;"),
    ("ExtendedAttributeList", "", "A includes B ;"),
    ("ExtendedAttributeList", "", "A implements B ;"),
    ("ExtendedAttributeList", "typedef long a ;", "typedef long b ;"),
    ("ExtendedAttributeList", "interface I {", "const long A = 1 ; } ;"),
    ("ExtendedAttributeList", "interface I {", "attribute long a ; } ;"),
    ("ExtendedAttributeList", "interface I {", "static readonly attribute long a ; } ;"),
    ("ExtendedAttributeList", "interface I { attribute", "long a ; } ;"),
    ("ExtendedAttributeList", "interface I {", "constructor ( ) ; } ;"),
    ("ExtendedAttributeList", "interface I {", "undefined f ( ) ; } ;"),
    ("ExtendedAttributeList", "interface I {", "getter any ( long a ) ; } ;"),
    ("ExtendedAttributeList", "interface I {", "iterable < long > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "iterable < long , any > ; } ;"),
    ("ExtendedAttributeList", "interface I { iterable <", "long > ; } ;"),
    ("ExtendedAttributeList", "interface I { iterable < long ,", "any > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "async iterable < long > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "async iterable < long , any > ( ) ; } ;"),
    ("ExtendedAttributeList", "interface I { async iterable <", "long , any > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "maplike < long , any > ; } ;"),
    ("ExtendedAttributeList", "interface I { maplike <", "long , any > ; } ;"),
    ("ExtendedAttributeList", "interface I { maplike < long ,", "any > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "readonly setlike < long > ; } ;"),
    ("ExtendedAttributeList", "interface I { setlike <", "long > ; } ;"),
    ("ExtendedAttributeList", "interface I {", "stringifier ; } ;"),
    ("ExtendedAttributeList", "interface I { attribute long a ;", "attribute long b ; } ;"),
    ("ExtendedAttributeList", "interface mixin M {", "const long A = 1 ; } ;"),
    ("ExtendedAttributeList", "interface mixin M {", "long f ( ) ; } ;"),
    ("ExtendedAttributeList", "interface mixin M {", "stringifier readonly attribute long a ; } ;"),
    ("ExtendedAttributeList", "interface mixin M { attribute", "long a ; } ;"),
    ("ExtendedAttributeList", "interface mixin M {", "stringifier ; } ;"),
    ("ExtendedAttributeList", "namespace N {", "const long A = 1 ; } ;"),
    ("ExtendedAttributeList", "namespace N {", "long f ( ) ; } ;"),
    ("ExtendedAttributeList", "namespace N {", "readonly attribute long a ; } ;"),
    ("ExtendedAttributeList", "namespace N { readonly attribute", "long a ; } ;"),
    ("ExtendedAttributeList", "dictionary D {", "long a ; } ;"),
    ("ExtendedAttributeList", "dictionary D {", "required long a ; } ;"),
    ("ExtendedAttributeList", "dictionary D { required", "long a ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f (", "long a ) ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f (", "optional long a = 5 ) ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f ( optional", "long a = 5 ) ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f ( [ Q ]", "long a ) ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f (", "long ... a ) ; } ;"),
    ("ExtendedAttributeList", "interface I { undefined f ( long a ,", "long b ) ; } ;"),
    ("ExtendedAttributeList", "callback C = any (", "any a ) ;"),
    ("ExtendedAttributeList", "typedef (", "long or any ) x ;"),
    ("ExtendedAttributeList", "typedef ( long or", "Foo ) x ;"),
    ("ExtendedAttributeList", "typedef ( long or", "( A or B ) ) x ;"),
    ("ExtendedAttributeList", "typedef sequence <", "long > x ;"),
    ("ExtendedAttributeList", "typedef Promise <", "long > x ;"),
    ("ExtendedAttributeList", "typedef record < DOMString ,", "long > x ;"),
    ("ExtendedAttributeList", "[ A (", "long a ) ] interface I { } ;"),
    ("ExtendedAttributeList", "callback C =", "any ( ) ;"),
    ("ExtendedAttributeList", "interface I { const", "long A = 1 ; } ;"),
];

/// slots for numbers and values; the rule is the kind of value usual there
pub const LIT_CTX: &[Ctx] = &[
    ("ConstValue", "interface I { const long x =", "; } ;"),
    ("ConstValue", "interface mixin M { const double x =", "; } ;"),
    ("ConstValue", "namespace N { const Foo ? x =", "; } ;"),
    ("DefaultValue", "dictionary D { long x =", "; } ;"),
    ("DefaultValue", "interface I { undefined f ( optional any x =", ") ; } ;"),
    ("DefaultValue", "callback C = any ( optional any x =", ", optional any y = 5 ) ;"),
    ("DefaultValue", "[ A ( optional any x =", ") ] typedef long y ;"),
    ("StringLit", "enum E {", "} ;"),
    ("StringLit", "enum E { \"a\" ,", ", \"b\" } ;"),
    ("StringLit", "[ A =", "] typedef long y ;"),
    ("StringLit", "[ A =", ", B ] typedef long y ;"),
];

/// slots that hold a name
pub const NAME_CTX: &[Ctx] = &[
    ("Identifier", "typedef long", ";"),
    ("Identifier", "typedef", "x ;"),
    ("Identifier", "typedef", "? x ;"),
    ("Identifier", "interface", "{ } ;"),
    ("Identifier", "interface A :", "{ } ;"),
    ("Identifier", "interface mixin", "{ } ;"),
    ("Identifier", "callback interface", "{ } ;"),
    ("Identifier", "callback", "= any ( ) ;"),
    ("Identifier", "callback C =", "( ) ;"),
    ("Identifier", "namespace", "{ } ;"),
    ("Identifier", "dictionary", "{ } ;"),
    ("Identifier", "dictionary A :", "{ } ;"),
    ("Identifier", "partial interface", "{ } ;"),
    ("Identifier", "partial interface mixin", "{ } ;"),
    ("Identifier", "partial dictionary", "{ } ;"),
    ("Identifier", "partial namespace", "{ } ;"),
    ("Identifier", "enum", "{ \"a\" } ;"),
    ("Identifier", "", "includes B ;"),
    ("Identifier", "A includes", ";"),
    ("Identifier", "", "implements B ;"),
    ("Identifier", "A implements", ";"),
    ("Identifier", "[", "] typedef long x ;"),
    ("Identifier", "[ A =", "] typedef long x ;"),
    ("Identifier", "[", "= * ] typedef long x ;"),
    ("Identifier", "[ A = ( B ,", ") ] typedef long x ;"),
    ("Identifier", "[", "( ) ] typedef long x ;"),
    ("Identifier", "[ A =", "( ) ] typedef long x ;"),
    ("Identifier", "interface I { attribute long", "; } ;"),
    ("Identifier", "interface I { attribute", "x ; } ;"),
    ("Identifier", "interface I { readonly attribute", "? x ; } ;"),
    ("Identifier", "interface I { const", "x = 1 ; } ;"),
    ("Identifier", "interface I { const long", "= 1 ; } ;"),
    ("Identifier", "interface I { undefined", "( ) ; } ;"),
    ("Identifier", "interface I {", "f ( ) ; } ;"),
    ("Identifier", "interface I {", "( ) ; } ;"),
    ("Identifier", "interface I { static", "f ( ) ; } ;"),
    ("Identifier", "interface I { getter", "f ( long i ) ; } ;"),
    ("Identifier", "interface I { getter", "( long i ) ; } ;"),
    ("Identifier", "interface I { undefined f ( long", ") ; } ;"),
    ("Identifier", "interface I { undefined f (", "x ) ; } ;"),
    ("Identifier", "interface I { undefined f (", "... x ) ; } ;"),
    ("Identifier", "interface I { undefined f ( any ...", ") ; } ;"),
    ("Identifier", "interface I { undefined f ( optional", "x = 5 ) ; } ;"),
    ("Identifier", "interface I { undefined f ( optional long", "= 5 ) ; } ;"),
    ("Identifier", "interface I { iterable <", "> ; } ;"),
    ("Identifier", "interface I { iterable < long ,", "> ; } ;"),
    ("Identifier", "interface I { maplike <", ", long > ; } ;"),
    ("Identifier", "interface I { attribute unsigned", "; } ;"),
    ("Identifier", "interface I { attribute long long", "; } ;"),
    ("Identifier", "interface mixin M { attribute long", "; } ;"),
    ("Identifier", "interface mixin M {", "f ( ) ; } ;"),
    ("Identifier", "namespace N {", "f ( ) ; } ;"),
    ("Identifier", "namespace N { readonly attribute", "x ; } ;"),
    ("Identifier", "namespace N { long", "( ) ; } ;"),
    ("Identifier", "dictionary D {", "x ; } ;"),
    ("Identifier", "dictionary D { required", "x ; } ;"),
    ("Identifier", "dictionary D { long", "= 5 ; } ;"),
    ("Identifier", "typedef sequence <", "> x ;"),
    ("Identifier", "typedef Promise <", "> x ;"),
    ("Identifier", "typedef record <", ", long > x ;"),
    ("Identifier", "typedef record < DOMString ,", "> x ;"),
    ("Identifier", "typedef (", "or long ) x ;"),
    ("Identifier", "typedef ( long or", "? ) x ;"),
    ("Identifier", "typedef ( A", "B ) x ;"),
    ("Identifier", "A", "B ;"),
    ("Identifier", "interface I { const long x =", "; } ;"),
    ("Identifier", "dictionary D { long x =", "; } ;"),
    ("Identifier", "interface I {", "; } ;"),
    ("Identifier", "interface I {", "attribute long x ; } ;"),
    ("Identifier", "interface I {", "setlike < long > ; } ;"),
    ("Identifier", "interface I { async", "< long > ; } ;"),
];

/// A document (or, for `sub:` kinds, none) of size `n` along one dimension.
pub fn scale(kind: &str, n: usize) -> String {
    let rep = |s: &str, sep: &str| vec![s; n].join(sep);
    let num = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    match kind {
        "defs" => rep("typedef long a;", "\n"),
        "defs-mixed" => num(
            &|i| {
                [
                    format!("typedef T{} a{};", i, i),
                    format!("A{} includes B;", i),
                    format!("enum E{} {{\"v{}\"}};", i, i),
                    format!("[X{}] interface I{} {{}};", i, i),
                    format!("partial dictionary D{} {{}};", i),
                ][i % 5]
                    .clone()
            },
            "",
        ),
        "enum" => format!("enum E {{{}}};", num(&|i| format!("\"v{}\"", i), ",")),
        "enum-same" => format!("enum E {{{},}};", rep("\"v\"", ", ")),
        "ifmembers" => format!("interface I {{{}}};", num(&|i| format!("attribute T{} a{};", i % 7, i), " ")),
        "opmembers" => format!("interface I {{{}}};", rep("undefined f();", "")),
        "mixmembers" => format!("interface mixin I {{{}}};", num(&|i| format!("const long C{}={};", i, i), "")),
        "nsmembers" => format!("namespace I {{{}}};", num(&|i| format!("long f{}();", i), "")),
        "dictmembers" => format!("dictionary I {{{}}};", num(&|i| format!("required T{} f;", i), "")),
        "args" => format!("callback C = any({});", num(&|i| format!("long a{}", i), ",")),
        "args-opt" => format!("interface I {{ undefined f({}); }};", rep("optional any a = null", ", ")),
        "args-ctor" => format!("interface I {{ constructor({}); }};", rep("T... a", ",")),
        "attrs" => format!("[{}] typedef long x;", num(&|i| format!("A{}", i), ",")),
        "attrs-mixed" => format!("interface I {{ [{}] stringifier; }};", num(&|i| ["A", "B=C", "D=*", "E=\"s\"", "F=(x,y)", "G(long a)"][i % 6].into(), ", ")),
        "idents" => format!("[Exposed=({})] interface I {{}};", num(&|i| format!("W{}", i), ",")),
        "union" => format!("typedef ({}) x;", num(&|i| format!("T{}", i), " or ")),
        "identlen" => format!("typedef long {};", "abC_-9".chars().cycle().take(n.max(1)).collect::<String>()),
        "typelen" => format!("typedef {}? x;", "DOMString".chars().cycle().take(n.max(1)).chain("_".chars()).collect::<String>()),
        "escaped" => format!("typedef long _{};", "a_".chars().cycle().take(n.max(1)).collect::<String>()),
        "strlen" => format!("enum E {{\"{}\", \"b\"}};", "aé/*\n".chars().cycle().take(n).collect::<String>()),
        "attrstr" => format!("[A=\"{}\"] typedef long x;", "\\x// ".chars().cycle().take(n).collect::<String>()),
        "dec" => format!("interface I {{ const long x = -{}; }};", "1234567890".chars().cycle().take(n.max(1)).collect::<String>()),
        "hex" => format!("interface I {{ const long x = 0x{}; }};", "09afAF".chars().cycle().take(n.max(1)).collect::<String>()),
        "oct" => format!("interface I {{ const long x = 0{}; }};", "01234567".chars().cycle().take(n).collect::<String>()),
        "float-int" => format!("dictionary I {{ double x = {}.; }};", rep("9", "")),
        "float-frac" => format!("dictionary I {{ double x = -.{}0; }};", rep("3", "")),
        "float-exp" => format!("dictionary I {{ double x = 1e-{}0; }};", rep("7", "")),
        "spaces" => format!("typedef{}long x;", " ".repeat(n.max(1))),
        "newlines" => format!("typedef long{}x;{}", "\r\n".repeat(n.max(1)), "\n".repeat(n)),
        "blockcomment" => format!("typedef /*{}*/ long x;", "* ".repeat(n)),
        "linecomment" => format!("typedef //{}\n long x; //{}", "é/".repeat(n), "\"".repeat(n)),
        "comments" => format!("typedef {} long x;{}", "/**/".repeat(n), "//\n".repeat(n)),
        "onlycomments" => format!("{}/* x */", "//\n".repeat(n)),
        "partials" => format!("partial interface P {{{}}};", num(&|i| format!("readonly attribute sequence<T{}> a{};", i % 5, i), "\n")),
        "cbmembers" => format!("callback interface P {{{}}};", num(&|i| format!("const unsigned long C{} = {};", i, i), "")),
        "mixed-members" => format!("interface I : J {{{}}};", num(&|i| ["attribute long a;", "undefined f(long a);", "const long C = 1;", "constructor();", "iterable<A>;", "stringifier;", "static any g();", "maplike<A,B>;", "[X] getter A (long i);", "async iterable<A>;"][i % 10].into(), " ")),
        "mix-ops" => format!("partial interface mixin M {{{}}};", num(&|i| format!("long f{}(any a);", i), " ")),
        "ns-attrs" => format!("partial namespace N {{{}}};", num(&|i| format!("readonly attribute long a{};", i), "\n")),
        "dict-defaults" => format!("dictionary D : E {{{}}};", num(&|i| format!("long? a{} = {};", i, i), " ")),
        "args-op" => format!("interface mixin I {{ undefined f({}); }};", num(&|i| format!("sequence<A> a{}", i), ", ")),
        "args-attrs" => format!("namespace N {{ any f({}); }};", num(&|i| format!("[A{}] any a", i), ",")),
        "args-attr" => format!("[C({})] interface I {{}};", num(&|i| format!("long a{}", i), ",")),
        "args-named" => format!("[C=D({})] interface I {{}};", num(&|i| format!("optional A a{} = {}", i, i), ",")),
        "args-async" => format!("interface I {{ async iterable<A>({}); }};", num(&|i| format!("A a{}", i), ",")),
        "attrs-arg" => format!("callback C = any([{}] long a);", num(&|i| format!("A{}=x", i), ",")),
        "attrs-type" => format!("interface I {{ attribute [{}] long a; }};", num(&|i| format!("A{}", i), ",")),
        "attrs-union" => format!("typedef ([{}] long or B) a;", num(&|i| format!("A{}=\"s\"", i), ",")),
        "union-arg" => format!("callback C = any(({})? a);", num(&|i| format!("sequence<T{}>?", i), " or ")),
        "union-ret" => format!("interface I {{ ({}) f(); }};", num(&|i| format!("[X] T{}", i), " or ")),
        "union-wide" => format!("dictionary D {{ record<DOMString, ({})> a; }};", num(&|i| format!("(A{} or B)", i), " or ")),
        "comments-enum" => format!("enum E {{ {} \"a\" {} }};", "/* x */\n".repeat(n), "// \"\n".repeat(n)),
        "comments-members" => format!("interface I {{ {} }};", num(&|i| format!("// {}\n attribute long a;", i), "\n")),
        "comments-args" => format!("callback C = any({} long a {});", "/**/ ".repeat(n), "//,\n".repeat(n)),
        "comments-attrs" => format!("[{} A {}] interface I {{}};", "/*]*/".repeat(n), "//]\n".repeat(n)),
        "comments-defs" => num(&|i| format!("/* {} */ typedef long a; // {}", i, i), "\n"),
        "strings" => format!("[{}] typedef long x;", num(&|i| format!("A=\"{}\"", i), ",")),
        "escapes" => num(&|i| format!("typedef _T{} _a;", i), " "),
        "lits" => format!("dictionary D {{{}}};", num(&|i| format!("any a = {};", ["1", "0x1F", "017", "-1.5e3", "\"s\"", "[]", "{}", "null", "true", "-Infinity"][i % 10]), "")),
        "includes" => num(&|i| format!("A{} includes B{}; A implements B;", i, i), "\n"),
        "seq" => format!("typedef {}long{} x;", "sequence<".repeat(n), ">".repeat(n)),
        "seq?" => format!("typedef {}long{} x;", "sequence<".repeat(n), ">?".repeat(n)),
        "frozen" => format!("typedef {}any{} x;", "FrozenArray<".repeat(n), ">".repeat(n)),
        "promise" => format!("typedef {}undefined{} x;", "Promise<".repeat(n.max(1)), ">".repeat(n.max(1))),
        "recordv" => format!("typedef {}T?{} x;", "record<DOMString,".repeat(n), ">".repeat(n)),
        "recordk" => format!("typedef {}T{} x;", "record<".repeat(n), ",long>?".repeat(n)),
        "unionl" => format!("typedef {}A or B{} x;", "(".repeat(n.max(1)), " or C)".repeat(n.max(1))),
        "unionr" => format!("typedef {}A or B{} x;", "(T? or ".repeat(n.max(1)), ")?".repeat(n.max(1))),
        _ => panic!("no scale {}", kind),
    }
}

/// Sizes of a ladder up to `max`: all small ones, then around powers of two and ten.
pub fn ladder(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    let mut p = 64;
    while p <= max * 2 {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    let mut t = 50;
    while t <= max * 2 {
        v.extend([t, t + 1, t * 2, t * 2 + 1]);
        t *= 10;
        v.extend([t / 5, t / 5 + 1]);
    }
    v.extend(&crate::dict::dict().sizes);
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

//! Token and node types, lexeme and production definitions read from JSON.
use lang_pt::lexeme::*;
use lang_pt::production::*;
use lang_pt::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt::{Debug, Display, Write};
use std::rc::Rc;

/// Assign a log label; a second assignment is refused.
macro_rules! log2 {
    ($x:expr, $m:ident, $cx:expr, $label:expr) => {{
        let lg = $cx.next_log($label);
        if let Some(l) = lg {
            $cx.note($x.$m(l.clone()).is_ok());
            if $cx.twice {
                $cx.note(!$x.$m(Log::Verbose("again")).is_ok());
                $cx.note(!$x.$m(l).is_ok());
                $cx.note(!$x.$m(Log::None).is_ok());
            }
        }
    }};
}
pub trait Tk: TokenImpl + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
    /// Productions matching text, available for the default token type only.
    fn text_prod<N: Nd>(d: &Value, _cx: &Bld, _label: String) -> Result<Pd<N, Self>, String> {
        panic!("harness: {} needs the default token type", d)
    }
}
pub trait Nd: NodeImpl + Eq + 'static {
    fn mk(v: i64) -> Self;
    fn val(&self) -> i64;
}
macro_rules! plain_token {
    ($t:ty) => {
        impl Tk for $t {
            fn mk(v: i64) -> Self { v as $t }
            fn val(&self) -> i64 { *self as i64 }
        }
    };
}
macro_rules! plain_node {
    ($t:ty) => {
        impl Nd for $t {
            fn mk(v: i64) -> Self { v as $t }
            fn val(&self) -> i64 { *self as i64 }
        }
    };
}
impl Tk for i8 {
    fn mk(v: i64) -> Self { v as i8 }
    fn val(&self) -> i64 { *self as i64 }
    fn text_prod<N: Nd>(d: &Value, cx: &Bld, label: String) -> Result<Pd<N, i8>, String> {
        let opt = |f: &Value| -> Vec<(&'static str, Option<N>)> {
            arr(f).iter().map(|p| (leak(text(&p[0])), nv(&p[1]))).collect()
        };
        Ok(match s(&d["k"]) {
            "cst" => {
                let x = ConstantField::<N>::new(leak(text(&d["s"])), nv(&d["v"]));
                log2!(x, assign_debugger, cx, label);
                Rc::new(x)
            }
            "csts" => {
                let x = ConstantFieldSet::<N>::new(opt(&d["a"]));
                log2!(x, assign_debugger, cx, label);
                Rc::new(x)
            }
            "pun" => {
                let x = PunctuationsField::<N>::new(opt(&d["a"]))?;
                log2!(x, assign_debugger, cx, label);
                Rc::new(x)
            }
            _ => {
                let x = RegexField::<N>::new(s(&d["src"]), nv(&d["v"]))?;
                log2!(x, assign_debugger, cx, label);
                Rc::new(x)
            }
        })
    }
}
plain_token!(i16);
impl Tk for isize {
    // the end of file token, the largest value, is written as the largest 32 bit integer
    fn mk(v: i64) -> Self { if v == 2147483647 { isize::MAX } else { v as isize } }
    fn val(&self) -> i64 { if *self == isize::MAX { 2147483647 } else { *self as i64 } }
}
plain_node!(u8);
plain_node!(u16);
plain_node!(usize);

thread_local! {
    pub static EOF: Cell<i64> = Cell::new(0);
    pub static REV: Cell<bool> = Cell::new(false);
    pub static NS: RefCell<HashSet<i64>> = RefCell::new(HashSet::new());
}
/// A user token: order, end of file and structural tokens depend on the group.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct CK(i64);
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for CK {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        if REV.with(|r| r.get()) { o.0.cmp(&self.0) } else { self.0.cmp(&o.0) }
    }
}
impl TokenImpl for CK {
    fn eof() -> Self { CK(EOF.with(|e| e.get())) }
    fn is_structural(&self) -> bool { NS.with(|s| !s.borrow().contains(&self.0)) }
}
impl Tk for CK {
    fn mk(v: i64) -> Self { CK(v) }
    fn val(&self) -> i64 { self.0 }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct CN(pub i64);
impl NodeImpl for CN {
    fn null() -> Self { CN(0) }
}
impl Nd for CN {
    fn mk(v: i64) -> Self { CN(v) }
    fn val(&self) -> i64 { self.0 }
}

pub fn i(v: &Value) -> i64 { v.as_i64().unwrap() }
pub fn u(v: &Value) -> usize { v.as_u64().unwrap() as usize }
pub fn b(v: &Value) -> bool { v.as_bool().unwrap_or(false) }
pub fn s(v: &Value) -> &str { v.as_str().unwrap() }
pub fn arr(v: &Value) -> &Vec<Value> { v.as_array().unwrap() }
pub fn bytes(v: &Value) -> Vec<u8> { arr(v).iter().map(|x| u(x) as u8).collect() }
pub fn text(v: &Value) -> String { String::from_utf8(bytes(v)).unwrap() }
pub fn leak(st: String) -> &'static str { Box::leak(st.into_boxed_str()) }
pub fn log_of(level: i64, label: String) -> Option<Log<&'static str>> {
    let l = leak(label);
    match level {
        1 => Some(Log::None),
        2 => Some(Log::Default(l)),
        3 => Some(Log::Success(l)),
        4 => Some(Log::Result(l)),
        5 => Some(Log::Verbose(l)),
        _ => None,
    }
}

// ---------------------------------------------------------------- lexemes
pub type Lx<T> = Rc<dyn ILexeme<Token = T, State = u8>>;
#[derive(Clone)]
pub struct DynLex<T>(pub Lx<T>);
impl<T: Tk> ILexeme for DynLex<T> {
    type Token = T;
    type State = u8;
    fn consume(&self, code: &Code, p: usize, ts: &Vec<Lex<T>>, st: &mut Vec<u8>) -> Option<Lex<T>> {
        self.0.consume(code, p, ts, st)
    }
    fn get_grammar_field(&self) -> Vec<(T, String)> { self.0.get_grammar_field() }
}
fn action(v: &Value) -> Action<u8> {
    let (d, st) = (b(&v["d"]), v["s"].as_u64().unwrap_or(0) as u8);
    match s(&v["k"]) {
        "append" => Action::append(st, d),
        "switch" => Action::switch(st, d),
        "pop" => Action::remove(d),
        _ => Action::None { discard: d },
    }
}
fn last<T: Tk>(ts: &Vec<Lex<T>>) -> i64 { ts.last().map_or(-999, |l| l.token.val()) }

/// What user functions see: the text, the tokens so far and, if any, the match.
fn seen<T: Tk>(f: &Value, code: &[u8], ts: &Vec<Lex<T>>) -> bool {
    let n = || u(&f["n"]);
    match s(&f["k"]) {
        "true" => true,
        "prev" => last(ts) == i(&f["t"]),
        "prevnot" => last(ts) != i(&f["t"]),
        "first" => ts.first().map_or(false, |l| l.token.val() == i(&f["t"])),
        "any" => ts.iter().any(|l| l.token.val() == i(&f["t"])),
        "prevlen" => ts.last().map_or(0, |l| l.end - l.start) >= n(),
        "count" => ts.len() >= n(),
        "few" => ts.len() < n(),
        "codelen" => code.len() >= n(),
        "head" => code.first().map(|b| *b as usize) == Some(u(&f["b"])),
        "tail" => code.last().map(|b| *b as usize) == Some(u(&f["b"])),
        _ => false,
    }
}
fn seen_match<T: Tk>(f: &Value, l: &Lex<T>, code: &[u8], ts: &Vec<Lex<T>>) -> bool {
    match s(&f["k"]) {
        "len" => l.end - l.start >= u(&f["n"]),
        "byte" => code[l.start] as usize == u(&f["b"]),
        "is" => l.token.val() == i(&f["t"]),
        "next" => code.get(l.end).map_or(-1, |b| *b as i64) == i(&f["b"]),
        "rest" => code.len() - l.end >= u(&f["n"]),
        "before" => l.start > 0 && code[l.start - 1] as usize == u(&f["b"]),
        "start" => l.start >= u(&f["n"]),
        "gap" => ts.last().map_or(0, |t| t.end) < l.start,
        _ => seen(f, code, ts),
    }
}

pub struct Bld {
    pub log: Vec<i64>,
    pub at: Cell<usize>,
    pub twice: bool,
    pub bld: bool,
    pub bad: Cell<usize>,
}
impl Bld {
    pub fn new(g: &Value) -> Self {
        Bld {
            log: g["log"].as_array().map_or(vec![], |a| a.iter().map(i).collect()),
            at: Cell::new(0),
            twice: b(&g["re"]),
            bld: g["how"].as_str() == Some("bld"),
            bad: Cell::new(0),
        }
    }
    fn next_log(&self, label: String) -> Option<Log<&'static str>> {
        if self.log.is_empty() { return None; }
        let k = self.at.get();
        self.at.set(k + 1);
        log_of(self.log[k % self.log.len()], label)
    }
    fn note(&self, ok: bool) { if !ok { self.bad.set(self.bad.get() + 1) } }
}

pub fn lexeme<T: Tk>(v: &Value, cx: &Bld) -> Result<DynLex<T>, String> {
    let fields = |f: &Value| -> Vec<(String, T)> {
        arr(f).iter().map(|p| (text(&p[0]), T::mk(i(&p[1])))).collect()
    };
    let refs = |f: &Vec<(String, T)>| -> Vec<(&'static str, T)> {
        f.iter().map(|(a, t)| (leak(a.clone()), *t)).collect()
    };
    let inner = |v: &Value| lexeme::<T>(&v["e"], cx);
    let k = s(&v["k"]);
    Ok(DynLex(match k {
        "pat" => {
            let x: Pattern<T> = Pattern::new(T::mk(i(&v["t"])), s(&v["src"]))?;
            log2!(x, set_log, cx, "pat".into());
            Rc::new(x)
        }
        "punc" => {
            let x: Punctuations<T> = Punctuations::new(refs(&fields(&v["f"])))?;
            log2!(x, set_log, cx, "punc".into());
            Rc::new(x)
        }
        "const" => {
            let x: Constants<T> = Constants::new(refs(&fields(&v["f"])));
            log2!(x, set_log, cx, "const".into());
            Rc::new(x)
        }
        "map" => {
            let (e, f) = (inner(v)?, refs(&fields(&v["f"])));
            let late = v["ext"].as_u64().unwrap_or(0).min(f.len() as u64) as usize;
            let mut f = f;
            let rest = f.split_off(f.len() - late);
            let mut x = if cx.bld { e.mapping(f)? } else { Mapper::new(e, f)? };
            x.extend_fields(rest)?;
            log2!(x, set_log, cx, "map".into());
            Rc::new(x)
        }
        "tmap" => {
            let fnv = v["fn"].clone();
            let f = move |l: &Lex<T>, code: &[u8], ts: &Vec<Lex<T>>| -> Option<T> {
                let to = T::mk(fnv["to"].as_i64().unwrap_or(0));
                let hit = seen_match(&fnv, l, code, ts);
                if hit { Some(to) } else { None }
            };
            let e = inner(v)?;
            if cx.bld {
                let x = e.thunk_mapping(f);
                log2!(x, set_log, cx, "tmap".into());
                Rc::new(x)
            } else {
                let x = ThunkMapper::new(e, f);
                log2!(x, set_log, cx, "tmap".into());
                Rc::new(x)
            }
        }
        "mw" => {
            let fnv = v["fn"].clone();
            let f = move |code: &[u8], ts: &Vec<Lex<T>>| -> bool { seen(&fnv, code, ts) };
            let e = inner(v)?;
            if cx.bld {
                let x = e.middleware(f);
                log2!(x, set_log, cx, "mw".into());
                Rc::new(x)
            } else {
                let x = Middleware::new(e, f);
                log2!(x, set_log, cx, "mw".into());
                Rc::new(x)
            }
        }
        "smix" => {
            let a: Vec<(T, Action<u8>)> =
                arr(&v["a"]).iter().map(|p| (T::mk(i(&p[0])), action(&p[1]))).collect();
            let e = inner(v)?;
            let x = if cx.bld { e.state_mixin(a) } else { StateMixin::new(e, a) };
            log2!(x, set_log, cx, "smix".into());
            Rc::new(x)
        }
        "tmix" => {
            let fnv = v["fn"].clone();
            let f = move |l: &Lex<T>, code: &[u8], ts: &Vec<Lex<T>>| -> Action<u8> {
                let pick = |c: bool| action(if c { &fnv["then"] } else { &fnv["other"] });
                match s(&fnv["k"]) {
                    "tok" => arr(&fnv["a"])
                        .iter()
                        .find(|p| i(&p[0]) == l.token.val())
                        .map_or(action(&fnv["other"]), |p| action(&p[1])),
                    _ => pick(seen_match(&fnv, l, code, ts)),
                }
            };
            let e = inner(v)?;
            if cx.bld {
                let x = e.thunk_mixin(f);
                log2!(x, set_log, cx, "tmix".into());
                Rc::new(x)
            } else {
                let x = ThunkStateMixin::new(e, f);
                log2!(x, set_log, cx, "tmix".into());
                Rc::new(x)
            }
        }
        _ => panic!("harness: unknown lexeme {}", k),
    }))
}
pub fn tokenizer<T: Tk>(
    d: &Value,
    cx: &Bld,
    lexemes: &mut Vec<DynLex<T>>,
) -> Result<Rc<dyn ITokenization<Token = T>>, String> {
    let mut sets: Vec<(u8, Vec<Lx<T>>)> = vec![];
    for p in arr(&d["states"]) {
        let mut v: Vec<Lx<T>> = vec![];
        for l in arr(&p[1]) {
            let x = lexeme::<T>(l, cx)?;
            lexemes.push(x.clone());
            v.push(Rc::new(x));
        }
        sets.push((u(&p[0]) as u8, v));
    }
    if s(&d["k"]) == "plain" {
        return Ok(Rc::new(Tokenizer::<T, u8>::new(sets.remove(0).1)));
    }
    let dflt = u(&d["dflt"]) as u8;
    let at = sets.iter().position(|x| x.0 == dflt).unwrap();
    let (_, first) = sets.remove(at);
    let mut t = CombinedTokenizer::new(dflt, first);
    for (st, l) in sets {
        t.add_state(st, l);
    }
    if let Some(l) = cx.next_log("tokenizer".into()) {
        cx.note(t.set_log(l).is_ok());
        if cx.twice { cx.note(!t.set_log(Log::Verbose("again")).is_ok()); }
    }
    Ok(Rc::new(t))
}

// ------------------------------------------------------------ productions
pub type Pd<N, T> = Rc<dyn IProduction<Node = N, Token = T>>;
pub struct Rec {
    pub on: bool,
    pub cap: usize,
    pub seen: HashSet<String>,
    pub ev: Vec<Value>,
    pub calls: usize,
    /// how often a production is called at a position
    pub times: HashMap<(usize, u8, i64), usize>,
}
thread_local! {
    pub static REC: RefCell<Rec> = RefCell::new(Rec { on: false, cap: 0, seen: HashSet::new(), ev: vec![], calls: 0, times: HashMap::new() });
}
pub fn num<D: Display>(d: &D) -> i64 { format!("{}", d).parse().unwrap() }
pub fn node_json<N: Nd>(n: &ASTNode<N>) -> Value {
    let (l, r) = n.bound.as_ref().map_or((-1, -1), |(a, c)| (num(a), num(c)));
    json!([n.node.val(), n.start, n.end, l, r, n.children.iter().map(node_json).collect::<Vec<_>>()])
}
pub fn res_json<I: Display, N: Nd>(r: &ParsedResult<I, N>) -> Value {
    match r {
        Ok(d) => json!([0, num(&d.consumed_index), d.children.iter().map(node_json).collect::<Vec<_>>()]),
        Err(ProductionError::Unparsed) => json!([1]),
        Err(ProductionError::Validation(p, m)) => json!([2, p, m]),
    }
}
pub fn record<I: Display, N: Nd>(n: usize, m: u8, at: i64, r: &ParsedResult<I, N>, fb: usize, fa: usize) {
    REC.with(|rec| {
        let mut rec = rec.borrow_mut();
        rec.calls += 1;
        if rec.on { *rec.times.entry((n, m, at)).or_insert(0) += 1 }
        if rec.on && rec.ev.len() < rec.cap {
            let v = json!([n, m, at, res_json(r), fb, fa]);
            let key = v.to_string();
            if rec.seen.insert(key) { rec.ev.push(v) }
        }
    })
}

/// A production of the grammar: delegates to the implementation and records
/// every call with its result.
pub struct Probe<N: Nd, T: Tk> {
    pub n: usize,
    pub cell: Rc<once_cell_lite::Cell1<Pd<N, T>>>,
}
pub mod once_cell_lite {
    use std::cell::RefCell;
    pub struct Cell1<X: 'static>(RefCell<Option<&'static X>>);
    impl<X: 'static> Cell1<X> {
        pub fn new() -> Self { Cell1(RefCell::new(None)) }
        pub fn set(&self, x: X) { *self.0.borrow_mut() = Some(Box::leak(Box::new(x))) }
        pub fn get(&self) -> &'static X { self.0.borrow().unwrap() }
    }
}
impl<N: Nd, T: Tk> Clone for Probe<N, T> {
    fn clone(&self) -> Self { Probe { n: self.n, cell: self.cell.clone() } }
}
impl<N: Nd, T: Tk> Probe<N, T> {
    fn p(&self) -> &'static Pd<N, T> { self.cell.get() }
}
impl<N: Nd, T: Tk> Display for Probe<N, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.p()) }
}
impl<N: Nd, T: Tk> IProduction for Probe<N, T> {
    type Node = N;
    type Token = T;
    fn is_nullable(&self) -> bool { self.p().is_nullable() }
    fn is_nullable_n_hidden(&self) -> bool { self.p().is_nullable_n_hidden() }
    fn obtain_nullability<'id>(&'id self, v: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.p().obtain_nullability(v)
    }
    fn impl_first_set(&self, f: &mut HashSet<T>) { self.p().impl_first_set(f) }
    fn impl_grammar(&self, w: &mut dyn Write, a: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> {
        self.p().impl_grammar(w, a)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        self.p().validate(c, v)
    }
    fn advance_fltr_ptr(&self, code: &Code, at: FltrPtr, ts: &TokenStream<T>, c: &mut Cache<FltrPtr, N>) -> ParsedResult<FltrPtr, N> {
        let fb = c.get_index();
        let r = self.p().advance_fltr_ptr(code, at, ts, c);
        record(self.n, 0, num(&at), &r, fb, c.get_index());
        r
    }
    fn advance_token_ptr(&self, code: &Code, at: TokenPtr, ts: &TokenStream<T>, c: &mut Cache<FltrPtr, N>) -> ParsedResult<TokenPtr, N> {
        let fb = c.get_index();
        let r = self.p().advance_token_ptr(code, at, ts, c);
        record(self.n, 1, num(&at), &r, fb, c.get_index());
        r
    }
    fn advance_ptr(&self, code: &Code, at: usize, c: &mut Cache<usize, N>) -> ParsedResult<usize, N> {
        let fb = c.get_index();
        let r = self.p().advance_ptr(code, at, c);
        record(self.n, 2, at as i64, &r, fb, c.get_index());
        r
    }
}

fn nv<N: Nd>(v: &Value) -> Option<N> { if i(v) < 0 { None } else { Some(N::mk(i(v))) } }

type ValFn<N> = Box<dyn Fn(&Vec<ASTNode<N>>, &[u8]) -> Result<(), ProductionError>>;
fn val_fn<N: Nd>(f: Value) -> ValFn<N> {
    Box::new(move |c, code| {
        let inv = |p: usize| Err(ProductionError::Validation(p, s(&f["s"]).to_string()));
        match s(&f["k"]) {
            "min" if c.len() < u(&f["n"]) => inv(c.first().map_or(0, |x| x.start)),
            "has" => match c.iter().find(|x| x.node.val() == i(&f["v"])) {
                Some(x) => inv(x.start),
                None => Ok(()),
            },
            "byte" => match c.first() {
                Some(x) if x.start < code.len() && code[x.start] as usize == u(&f["b"]) => inv(x.end),
                _ => Ok(()),
            },
            "unmin" if c.len() < u(&f["n"]) => Err(ProductionError::Unparsed),
            "unhas" if c.iter().any(|x| x.node.val() == i(&f["v"])) => Err(ProductionError::Unparsed),
            _ => Ok(()),
        }
    })
}

/// Later assignments: the same again, a part of it, more, something else, nothing.
fn again<X: Clone>(v: Vec<X>, other: X) -> Vec<Vec<X>> {
    let mut more = v.clone();
    more.push(other.clone());
    let mut rev = v.clone();
    rev.reverse();
    vec![vec![other], v.clone(), v[..1].to_vec(), more, rev, vec![]]
}
pub struct Gr<N: Nd, T: Tk> {
    pub nodes: Vec<Rc<Probe<N, T>>>, // index 0 unused
}

/// Build the productions of a grammar. how: "init" creates non-terminals first
/// and assigns their symbols later, "direct" creates them with their symbols,
/// "bld" also uses the builder methods.
pub fn grammar<N: Nd, T: Tk>(gv: &Value, g: &Value, cx: &Bld) -> Result<Gr<N, T>, String> {
    let defs = arr(gv);
    let how = g["how"].as_str().unwrap_or("init");
    let late = how == "init";
    let pr: Vec<Rc<Probe<N, T>>> = (0..=defs.len())
        .map(|n| Rc::new(Probe { n, cell: Rc::new(once_cell_lite::Cell1::new()) }))
        .collect();
    let uniq = format!("g{}_", g["id"]);
    let sym = |v: &Value| -> Vec<Pd<N, T>> {
        arr(v).iter().map(|k| pr[u(k)].clone() as Pd<N, T>).collect()
    };
    let sfx = |v: &Value| -> Vec<(Pd<N, T>, N)> {
        arr(v).iter().map(|p| (pr[u(&p[0])].clone() as Pd<N, T>, N::mk(i(&p[1])))).collect()
    };
    let other = || -> Pd<N, T> { Rc::new(NullProd::<N, T>::new()) };
    let mut second: Vec<Box<dyn Fn() -> bool>> = vec![];
    for (k, d) in defs.iter().enumerate() {
        let n = k + 1;
        let id = leak(format!("{}p{}", uniq, n));
        let label = || format!("log{}", n);
        let e = || pr[u(&d["e"])].clone();
        let own = || (*pr[u(&d["e"])]).clone();
        macro_rules! done {
            ($x:expr, $m:ident) => {{
                let x = $x;
                log2!(x, $m, cx, label());
                Rc::new(x) as Pd<N, T>
            }};
        }
        macro_rules! named {
            ($x:expr, $m:ident) => {{
                let x = $x;
                if b(&d["rule"]) {
                    cx.note(x.set_rule_name(id).is_ok());
                    if cx.twice {
                        cx.note(x.set_rule_name("other").is_err());
                        cx.note(x.set_rule_name(id).is_err());
                    }
                }
                done!(x, $m)
            }};
        }
        let p: Pd<N, T> = match s(&d["k"]) {
            "tf" => done!(TokenField::<N, T>::new(T::mk(i(&d["t"])), nv(&d["v"])), set_log),
            "tfs" => {
                let a: Vec<(T, Option<N>)> =
                    arr(&d["a"]).iter().map(|p| (T::mk(i(&p[0])), nv(&p[1]))).collect();
                if b(&d["same"]) {
                    let v = a[0].1.clone();
                    done!(TokenFieldSet::<N, T>::with_value(v, a.into_iter().map(|x| x.0).collect()), assign_debugger)
                } else {
                    done!(TokenFieldSet::<N, T>::new(a), assign_debugger)
                }
            }
            "eof" => done!(EOFProd::<N, T>::new(nv(&d["v"])), assign_debugger),
            "null" => done!(
                if i(&d["v"]) < 0 { NullProd::<N, T>::hidden() } else { NullProd::<N, T>::new() },
                set_log
            ),
            "cst" | "csts" | "pun" | "re" => T::text_prod::<N>(d, cx, label())?,
            "concat" => {
                let x = if late || b(&d["u"]) {
                    Rc::new(Concat::<N, T>::init(id))
                } else {
                    Rc::new(Concat::new(id, sym(&d["a"])))
                };
                log2!(x, set_log, cx, label());
                if late && !b(&d["u"]) { cx.note(x.set_symbols(sym(&d["a"])).is_ok()); }
                if !b(&d["u"]) {
                    let y = x.clone();
                    let all = again(sym(&d["a"]), other());
                    second.push(Box::new(move || all.iter().all(|v| y.set_symbols(v.clone()).is_err())));
                }
                x
            }
            "union" => {
                let x = if late || b(&d["u"]) {
                    Rc::new(Union::<N, T>::init(id))
                } else {
                    Rc::new(Union::new(id, sym(&d["a"])))
                };
                log2!(x, set_log, cx, label());
                if late && !b(&d["u"]) { cx.note(x.set_symbols(sym(&d["a"])).is_ok()); }
                if !b(&d["u"]) {
                    let y = x.clone();
                    let all = again(sym(&d["a"]), other());
                    second.push(Box::new(move || all.iter().all(|v| y.set_symbols(v.clone()).is_err())));
                }
                x
            }
            "suf" => {
                let st = b(&d["st"]);
                let l = pr[u(&d["l"])].clone();
                let x = if how == "bld" {
                    // the type parameter of into_suffixes is not used by its result
                    Rc::new((*l).clone().into_suffixes::<Probe<N, T>>(id, st))
                } else if late || b(&d["u"]) {
                    Rc::new(Suffixes::init(id, &l, st))
                } else {
                    Rc::new(Suffixes::new(id, &l, st, sfx(&d["a"])))
                };
                log2!(x, set_log, cx, label());
                if (late || how == "bld") && !b(&d["u"]) {
                    cx.note(x.set_suffixes(sfx(&d["a"])).is_ok());
                }
                if !b(&d["u"]) {
                    let y = x.clone();
                    let all = again(sfx(&d["a"]), (other(), N::mk(1)));
                    second.push(Box::new(move || all.iter().all(|v| y.set_suffixes(v.clone()).is_err())));
                }
                x
            }
            "list" => done!(if cx.bld { own().into_list() } else { List::new(&e()) }, assign_debugger),
            "sl" => {
                let sp = pr[u(&d["s"])].clone();
                let inc = b(&d["inc"]);
                named!(
                    if cx.bld { own().into_separated_list(&sp, inc) } else { SeparatedList::new(&e(), &sp, inc) },
                    assign_debugger
                )
            }
            "nul" => done!(
                match (b(&d["h"]), cx.bld) {
                    (true, true) => own().into_null_hidden(),
                    (true, false) => Nullable::hidden(&e()),
                    (false, true) => own().into_nullable(),
                    (false, false) => Nullable::new(&e()),
                },
                set_log
            ),
            "hid" => named!(if cx.bld { own().into_hidden() } else { Hidden::new(&e()) }, set_log),
            "look" => done!(
                if cx.bld { own().into_lookahead(nv(&d["v"])) } else { Lookahead::new(&e(), nv(&d["v"])) },
                assign_debugger
            ),
            "node" => {
                let v = N::mk(i(&d["v"]));
                named!(if cx.bld { own().into_node(v) } else { Node::new(&e(), v) }, set_log)
            }
            "cache" => done!(Cacheable::new(CacheKey::verif_new(u(&d["key"])), &e()), assign_debugger),
            "ns" => done!(NonStructural::new(&e(), b(&d["fill"])), set_log),
            "st" => done!(Structural::new(&e()), set_log),
            "val" => {
                let f = val_fn::<N>(d["fn"].clone());
                done!(if cx.bld { own().validate_with(f) } else { Validator::new(&e(), f) }, assign_debugger)
            }
            x => panic!("harness: unknown production {}", x),
        };
        pr[n].cell.set(p);
    }
    if cx.twice {
        for f in &second {
            cx.note(f());
        }
    }
    Ok(Gr { nodes: pr })
}
pub fn dbg<D: Debug>(d: &D) -> String { format!("{:?}", d) }

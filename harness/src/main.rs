//! Runs the groups of a JSON lines file against lang_pt and writes, for every
//! group, one line with what the implementation did.
//!   langpt-verif IN OUT [first]      groups from line `first` on
mod defs;
use defs::*;
use lang_pt::production::*;
use lang_pt::*;
use ptree::TreeItem;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

static TICK: AtomicU64 = AtomicU64::new(0);
fn tick() { TICK.fetch_add(1, Ordering::Relaxed); }

/// Line, column shown by a message, its head and the quoted text in the head.
fn shown(msg: &str) -> (i64, i64, String) {
    let at = |key: &str| -> i64 {
        msg.rfind(key).map_or(-1, |p| {
            let t: String = msg[p + key.len()..]
                .chars()
                .skip_while(|c| !c.is_ascii_digit())
                .take_while(|c| c.is_ascii_digit())
                .collect();
            t.parse().unwrap_or(-1)
        })
    };
    let head = match msg.rfind("\nFailed to parse at") {
        Some(p) => msg[..p].trim_end_matches('\n').to_string(),
        None => msg.to_string(),
    };
    (at("line:"), at("column:"), head)
}
fn unescape(t: &str) -> Vec<u8> {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' { out.push(c); continue; }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let mut hex = String::new();
                it.next();
                while let Some(h) = it.next() {
                    if h == '}' { break; }
                    hex.push(h);
                }
                out.push(char::from_u32(u32::from_str_radix(&hex, 16).unwrap_or(0xfffd)).unwrap_or('\u{fffd}'));
            }
            Some(x) => out.push(x),
            None => {}
        }
    }
    out.into_bytes()
}
/// [class, shown bytes] of the head of a message
fn head_json(head: &str) -> (String, Vec<u8>) {
    if head.starts_with("V:") { return (head.to_string(), vec![]); }
    if head.contains("end of file") || head.contains("end of input") { return ("eof".into(), vec![]); }
    if let Some(a) = head.find('"') {
        // a debug formatted string: up to the closing quote
        let rest = &head[a + 1..];
        let mut esc = false;
        let mut end = rest.len();
        for (k, c) in rest.char_indices() {
            if esc { esc = false } else if c == '\\' { esc = true } else if c == '"' { end = k; break }
        }
        if !head.contains("'") || a < head.find('\'').unwrap() {
            return ("tok".into(), unescape(&rest[..end]));
        }
    }
    if let Some(a) = head.find('\'') {
        let rest = &head[a + 1..];
        if let Some(e) = rest.rfind('\'') { return ("chr".into(), rest[..e].as_bytes().to_vec()); }
    }
    (format!("?{}", head), vec![])
}
fn parse_err(e: &ParseError) -> Value {
    let (l, c, head) = shown(&e.message);
    let (cls, sh) = head_json(&head);
    json!([1, e.pointer, l, c, cls, sh])
}
fn lex_err(e: &ParseError) -> Value {
    let (l, c, _) = shown(&e.message);
    json!([1, e.pointer, l, c])
}
fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        m
    })
}
fn outcome<N: Nd>(r: Result<Result<Vec<ASTNode<N>>, ParseError>, String>, lexfail: bool) -> Value {
    match r {
        Ok(Ok(t)) => json!([0, t.iter().map(node_json).collect::<Vec<_>>()]),
        Ok(Err(e)) if lexfail => {
            let mut v = lex_err(&e);
            v.as_array_mut().unwrap().extend([json!("lex"), json!([])]);
            v
        }
        Ok(Err(e)) => parse_err(&e),
        Err(m) => json!([9, m]),
    }
}
fn toks_json<T: Tk>(ts: &[Lex<T>]) -> Value {
    json!(ts.iter().map(|l| json!([l.token.val(), l.start, l.end])).collect::<Vec<_>>())
}
fn tok_json<T: Tk>(l: &Lex<T>) -> Value { json!([l.token.val(), l.start, l.end]) }

fn rec_start(cap: usize) {
    REC.with(|r| { let mut r = r.borrow_mut(); r.on = true; r.cap = cap; r.seen.clear(); r.ev.clear(); r.calls = 0; r.times.clear(); })
}
fn rec_stop() -> (Vec<Value>, usize) {
    REC.with(|r| { let mut r = r.borrow_mut(); r.on = false; (std::mem::take(&mut r.ev), r.calls) })
}

/// Tree queries: every value, a few nested searches.
fn queries<N: Nd>(t: &ASTNode<N>) -> Value {
    let mut vals: Vec<i64> = vec![];
    fn walk<N: Nd>(t: &ASTNode<N>, v: &mut Vec<i64>) {
        if !v.contains(&t.node.val()) { v.push(t.node.val()) }
        t.children.iter().for_each(|c| walk(c, v));
    }
    walk(t, &mut vals);
    vals.sort();
    vals.push(99);
    let opt = |r: Option<&ASTNode<N>>| r.map_or(json!([]), |n| json!([node_json(n)]));
    let list = |r: Vec<&ASTNode<N>>| json!(r.iter().map(|n| node_json(*n)).collect::<Vec<_>>());
    let mut out = vec![];
    for v in &vals {
        let n = N::mk(*v);
        out.push(json!(["find", v, opt(t.find_tree_with_node(&n))]));
        out.push(json!(["list", v, list(t.list_tree_with_token(&n))]));
        out.push(json!(["child", v, opt(t.get_child(&n))]));
        out.push(json!(["has", v, t.contains(&n)]));
        for w in vals.iter().take(5) {
            let m = N::mk(*w);
            out.push(json!(["nest", [v, w], opt(t.find_nested_tree_with_node(&[n.clone(), m.clone()]))]));
            out.push(json!(["nest", [w, v, w], opt(t.find_nested_tree_with_node(&[m.clone(), n.clone(), m]))]));
        }
    }
    out.push(json!(["nest", [], opt(t.find_nested_tree_with_node(&[]))]));
    for k in 0..4usize {
        out.push(json!(["pfind", k, opt(t.find_tree(&|x: &ASTNode<N>| x.children.len() == k))]));
        out.push(json!(["plist", k, list(t.list_tree(&|x: &ASTNode<N>| x.children.len() == k))]));
        out.push(json!(["wfind", k, opt(t.find_tree(&|x: &ASTNode<N>| x.end - x.start == k))]));
        out.push(json!(["wlist", k, list(t.list_tree(&|x: &ASTNode<N>| x.end - x.start == k))]));
    }
    json!(out)
}
fn views<T: Tk>(ts: &Vec<Lex<T>>, code: &[u8]) -> Value {
    let st = TokenStream::from(ts);
    let len = code.len();
    let mut out = vec![];
    let tv = |v: Vec<&Lex<T>>| json!(v.iter().map(|l| tok_json(*l)).collect::<Vec<_>>());
    let n = st.length();
    let fp: Vec<FltrPtr> = {
        let mut v = vec![];
        let mut p = FltrPtr::default();
        for k in 0..=n { if k > 0 { p = p + 1; } v.push(p); }
        v
    };
    let res = |r: Result<FltrPtr, FltrPtr>| match r { Ok(x) => json!([1, num(&x)]), Err(x) => json!([0, num(&x)]) };
    out.push(json!(["len", n]));
    out.push(json!(["eos", st.eos_pointer()]));
    out.push(json!(["iter", tv(st.iter_lex().collect())]));
    out.push(json!(["seg", toks_json(st.get_segments())]));
    for k in 0..=n {
        out.push(json!(["hasat", k, st.has_stream(fp[k])]));
        out.push(json!(["get", k, st.get(fp[k]).map_or(json!([]), tok_json)]));
        out.push(json!(["iterat", k, tv(st.iter_lex_at(fp[k]).collect())]));
        out.push(json!(["last", k, st.last_segment_index(&fp[k]).map_or(-1, |x| num(&x))]));
        if k < n {
            out.push(json!(["tokptr", k, num(&st.get_token_ptr(fp[k]))]));
            out.push(json!(["ptr", k, st.pointer(fp[k])]));
            out.push(json!(["idx", k, tok_json(&st[fp[k]])]));
            out.push(json!(["iseos", k, st.is_eos(fp[k])]));
        }
        for j in k..=n { out.push(json!(["range", [k, j], tv(st.iter_lex_range(fp[k], fp[j]).collect())])); }
    }
    for k in 0..=ts.len() {
        out.push(json!(["rawat", k, tv(st.iter_at(k).collect())]));
        for j in k..=ts.len() { out.push(json!(["rawrange", [k, j], tv(st.iter_range(k, j).collect())])); }
        let tp = TokenPtr::from(k);
        out.push(json!(["find", k, res(st.find_filtered_index(&tp))]));
        out.push(json!(["findp", k, res(st.find_filter_ptr(tp))]));
        if k < ts.len() {
            out.push(json!(["rawidx", k, tok_json(&st[tp])]));
            out.push(json!(["raweos", k, st.is_eos_segment(tp)]));
        }
    }
    if let Ok(t) = std::str::from_utf8(code) {
        if ts.iter().all(|l| t.is_char_boundary(l.start) && t.is_char_boundary(l.end)) {
            out.push(json!(["pairs", st.token_pair(t).iter().map(|(k, x)| json!([k.val(), x.as_bytes()])).collect::<Vec<_>>()]));
        }
    }
    for p in 0..=len {
        out.push(json!(["fat", p, res(st.filtered_index_at(p))]));
        out.push(json!(["lexat", p, match st.lex_data_at(p) { Ok(l) => json!([1, tok_json(l)]), Err(l) => json!([0, tok_json(l)]) }]));
        out.push(json!(["fdat", p, match st.filtered_data_at(p) { Ok(l) => json!([1, tok_json(l)]), Err(l) => json!([0, tok_json(l)]) }]));
    }
    json!(out)
}

enum P<N: Nd, T: Tk> {
    Tok(DefaultParser<N, T>),
    Less(LexerlessParser<N, T>),
}
fn build<N: Nd, T: Tk>(g: &Value, cx: &Bld) -> Result<(P<N, T>, Gr<N, T>, Vec<DynLex<T>>, Option<Rc<dyn ITokenization<Token = T>>>), String> {
    let gr = grammar::<N, T>(&g["grammar"], g, cx)?;
    let root = gr.nodes[u(&g["root"])].clone();
    let mut lx = vec![];
    if g["mode"] == "less" {
        let p = LexerlessParser::new(root).map_err(|e| format!("{}", e))?;
        Ok((P::Less(p), gr, lx, None))
    } else {
        let tk = tokenizer::<T>(&g["lexer"], cx, &mut lx)?;
        let p = DefaultParser::new(tk.clone(), root).map_err(|e| format!("{}", e))?;
        Ok((P::Tok(p), gr, lx, Some(tk)))
    }
}
fn run_group<N: Nd, T: Tk>(g: &Value) -> Value {
    let cap = g["cap"].as_u64().unwrap_or(300) as usize;
    let mode = s(&g["mode"]);
    let cx = Bld::new(g);
    if mode == "lexonly" {
        let mut lx: Vec<DynLex<T>> = vec![];
        let tk = match guard(|| tokenizer::<T>(&g["lexer"], &cx, &mut lx)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return json!({"id": g["id"], "build": "err", "msg": e}),
            Err(e) => return json!({"id": g["id"], "build": "panic", "msg": e}),
        };
        let mut outs = vec![];
        for input in arr(&g["inputs"]) {
            tick();
            let code = bytes(input);
            let mut o = json!({"lex": lex_outcome(&*tk, &code)});
            if b(&g["sweeplex"]) { o["ls"] = sweep_lex(g, &lx, &code) }
            if b(&g["vw"]) {
                if let Ok(Ok(ts)) = guard(|| tk.tokenize(&Code::new(&code))) {
                    o["vw"] = guard(|| views(&ts, &code)).unwrap_or_else(|m| json!([["panic", m]]));
                }
            }
            outs.push(o);
        }
        return json!({"id": g["id"], "build": "ok", "bad": cx.bad.get(), "inputs": outs});
    }
    let made = match guard(|| build::<N, T>(g, &cx)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return json!({"id": g["id"], "build": "err", "msg": e}),
        Err(e) => return json!({"id": g["id"], "build": "panic", "msg": e}),
    };
    if mode == "build" { return json!({"id": g["id"], "build": "ok", "bad": cx.bad.get(), "inputs": []}); }
    // the same productions on their own, before there is a parser
    let mut fx: Vec<Value> = vec![];
    let asked = g["facts"].as_array().cloned().unwrap_or_default();
    let lexed = mode != "less";
    if !asked.is_empty() {
        let mut g2 = g.clone();
        g2["id"] = json!(format!("{}e", g["id"]));
        if let Ok(Ok(gr2)) = guard(|| grammar::<N, T>(&g2["grammar"], &g2, &Bld::new(&g2))) { fx.push(facts(&gr2, &asked, lexed)) } else { fx.push(json!("building again failed")) }
    }
    let (mut p, gr, _lx, tk) = made;
    register(&mut p, &gr);
    if !asked.is_empty() { fx.push(facts(&gr, &asked, lexed)) }
    let nn = gr.nodes.len() - 1;
    let gram = if !b(&g["gram"]) { json!(null) } else {
        match guard(|| match &p { P::Tok(x) => x.grammar(), P::Less(x) => x.grammar() }) {
            Ok(Ok(t)) => json!(t),
            Ok(Err(_)) => json!(["error"]),
            Err(m) => json!(["panic", m]),
        }
    };
    let mut outs = vec![];
    for input in arr(&g["inputs"]) {
        tick();
        let code = bytes(input);
        let mut o = json!({});
        if b(&g["fresh"]) {
            // a new parser for every input, with productions never used before
            let mut g2 = g.clone();
            g2["id"] = json!(format!("{}f{}", g["id"], outs.len()));
            if let Ok(Ok((mut p2, gr2, _, _))) = guard(|| build::<N, T>(&g2, &Bld::new(&g2))) {
                register(&mut p2, &gr2);
                one_input(g, &p2, &gr2, &tk, &code, cap, nn, &mut o);
            } else {
                o = json!({"par": [9, "building again failed"]});
            }
        } else {
            one_input(g, &p, &gr, &tk, &code, cap, nn, &mut o);
        }
        outs.push(o);
    }
    if !asked.is_empty() { fx.push(facts(&gr, &asked, lexed)) }
    json!({"id": g["id"], "build": "ok", "bad": cx.bad.get(), "inputs": outs, "gram": gram, "facts": fx})
}
/// What productions say of themselves, asked in the given order.
fn facts<N: Nd, T: Tk>(gr: &Gr<N, T>, asked: &Vec<Value>, lexed: bool) -> Value {
    json!(asked.iter().map(|n| guard(|| {
        let p = &gr.nodes[u(n)];
        let first = |v: &mut Vec<i64>| {
            let mut f: HashSet<T> = HashSet::new();
            if lexed { p.impl_first_set(&mut f) }
            v.extend(f.iter().map(|t| t.val()));
            v.sort();
        };
        let mut f = vec![];
        // either question may be the first
        if u(n) % 2 == 0 { first(&mut f) }
        let o = p.obtain_nullability(HashMap::new()).map_or(2, |x| x as usize);
        let a = p.is_nullable() as usize;
        if f.is_empty() { first(&mut f) }
        json!([n, a, o, f])
    }).unwrap_or_else(|_| json!([n, 3, 3, []]))).collect::<Vec<_>>())
}
fn register<N: Nd, T: Tk>(p: &mut P<N, T>, gr: &Gr<N, T>) {
    for n in 1..gr.nodes.len() {
        let id = leak(format!("p{}", n));
        match p {
            P::Tok(x) => x.add_debug_production(id, &gr.nodes[n]),
            P::Less(x) => x.add_debug_production(id, &gr.nodes[n]),
        }
    }
}
fn lex_outcome<T: Tk>(tk: &dyn ITokenization<Token = T>, code: &[u8]) -> Value {
    match guard(|| tk.tokenize(&Code::new(code))) {
        Ok(Ok(t)) => json!([0, toks_json(&t)]),
        Ok(Err(e)) => lex_err(&e),
        Err(_) => json!([3]),
    }
}
fn sweep_lex<T: Tk>(g: &Value, lx: &[DynLex<T>], code: &[u8]) -> Value {
    let mut out = vec![];
    let c = Code::new(code);
    for (k, l) in lx.iter().enumerate() {
        for p in 0..=code.len() {
            for ctx in arr(&g["ctxs"]) {
                let ts: Vec<Lex<T>> = arr(&ctx[0]).iter()
                    .map(|t| Lex::new(T::mk(i(&t[0])), u(&t[1]), u(&t[2]))).collect();
                let mut st: Vec<u8> = bytes(&ctx[1]);
                let r = guard(|| l.consume(&c, p, &ts, &mut st));
                let v = match r {
                    Ok(Some(x)) => json!([1, x.token.val(), x.start, x.end, st]),
                    Ok(None) => json!([0, 0, 0, 0, st]),
                    Err(_) => json!([3]),
                };
                out.push(json!([k + 1, p, ctx[0], ctx[1], v]));
            }
        }
    }
    json!(out)
}
fn one_input<N: Nd, T: Tk>(
    g: &Value, p: &P<N, T>, gr: &Gr<N, T>, tk: &Option<Rc<dyn ITokenization<Token = T>>>,
    code: &[u8], cap: usize, nn: usize, o: &mut Value,
) {
    let mut lexfail = false;
    let mut toks: Vec<Lex<T>> = vec![];
    if let Some(tk) = tk {
        o["lex"] = lex_outcome(&**tk, code);
        if o["lex"][0] != 0 { lexfail = true } else { toks = tk.tokenize(&Code::new(code)).unwrap() }
    }
    rec_start(if g["ev"] == false { 0 } else { cap });
    let parsed = guard(|| match p { P::Tok(x) => x.parse(code), P::Less(x) => x.parse(code) });
    let (ev, calls) = rec_stop();
    o["ev"] = json!(ev);
    o["calls"] = json!(calls);
    if let Some(ns) = g["once"].as_array() {
        let mut v: Vec<_> = REC.with(|r| r.borrow().times.iter().map(|(k, c)| (*k, *c)).collect());
        v.retain(|((n, m, _), _)| *m != 1 && ns.iter().any(|x| u(x) == *n));
        v.sort_by_key(|(k, c)| (usize::MAX - c, *k));
        v.truncate(60);
        o["once"] = json!(v.iter().map(|((n, m, at), c)| json!([n, m, at, c])).collect::<Vec<_>>());
    }
    if let (true, Ok(Ok(t))) = (b(&g["q"]), &parsed) {
        o["q"] = json!(t.iter().map(|x| guard(|| json!([node_json(x), queries(x)])).unwrap_or_else(|m| json!([["panic", m]]))).collect::<Vec<_>>());
    }
    if let (true, Ok(Ok(t))) = (b(&g["show"]), &parsed) {
        o["show"] = json!(t.iter().map(|x| guard(|| { let mut l = vec![]; lines(x, 0, &mut l); json!([node_json(x), format!("{:?}", x), l]) }).unwrap_or_else(|m| json!(["panic", m]))).collect::<Vec<_>>());
    }
    o["par"] = outcome(parsed, lexfail);
    if let P::Tok(x) = p {
        // the other entry points give the same outcome
        let two = guard(|| x.tokenize_n_parse(code));
        if let Ok(Ok((t2, _))) = &two {
            if toks_json(t2) != toks_json(&toks) { o["two"] = json!("tokens differ") }
        }
        let two = outcome(two.map(|r| r.map(|x| x.1)), lexfail);
        if two != o["par"] { o["two"] = two }
        if !lexfail {
            let c = Code::new(code);
            let two = outcome(guard(|| x.parse_stream(&c, TokenStream::from(&toks))), false);
            if two != o["par"] { o["two"] = two }
        }
    }
    if b(&g["sweep"]) && !lexfail {
        let mut sw: Vec<Value> = vec![];
        let c = Code::new(code);
        rec_start(0);
        if tk.is_some() {
            let st = TokenStream::from(&toks);
            let raw: HashSet<usize> = g["raw"].as_array().map_or(HashSet::new(), |a| a.iter().map(u).collect());
            for n in 1..=nn {
                if g["skip"].as_array().map_or(false, |a| a.iter().any(|x| u(x) == n)) { continue }
                let mut at = FltrPtr::default();
                for k in 0..st.length() {
                    if k > 0 { at = at + 1; }
                    let r = guard(|| { let mut ca = Cache::root(); let fb = st.pointer(at); ca.update_index(fb); let r = gr.nodes[n].advance_fltr_ptr(&c, at, &st, &mut ca); json!([n, 0, k, res_json(&r), fb, ca.get_index()]) });
                    sw.push(r.unwrap_or_else(|m| json!([n, 0, k, [9, m], 0, 0])));
                }
                if raw.contains(&n) {
                    for k in 0..toks.len() {
                        let r = guard(|| { let mut ca = Cache::root(); let fb = toks[k].start; ca.update_index(fb); let r = gr.nodes[n].advance_token_ptr(&c, TokenPtr::from(k), &st, &mut ca); json!([n, 1, k, res_json(&r), fb, ca.get_index()]) });
                        sw.push(r.unwrap_or_else(|m| json!([n, 1, k, [9, m], 0, 0])));
                    }
                }
            }
        } else {
            for n in 1..=nn {
                for k in 0..=code.len() {
                    let r = guard(|| { let mut ca = Cache::root(); ca.update_index(k); let r = gr.nodes[n].advance_ptr(&c, k, &mut ca); json!([n, 2, k, res_json(&r), k, ca.get_index()]) });
                    sw.push(r.unwrap_or_else(|m| json!([n, 2, k, [9, m], 0, 0])));
                }
            }
        }
        rec_stop();
        o["sw"] = json!(sw);
    }
    if g["dbg"].is_array() && !lexfail {
        let mut d = vec![];
        for n in arr(&g["dbg"]) {
            let id = if u(n) == 0 { "missing".to_string() } else { format!("p{}", n) };
            for at in 0..=code.len() {
                let r = guard(|| debug_at(p, &id, code, at));
                let v = match (&r, u(n)) {
                    (Ok(Err(e)), 0) if e.message.contains("missing") => json!([1]),
                    _ => outcome(r, false),
                };
                d.push(json!([n, at, v]));
            }
        }
        o["dbg"] = json!(d);
    }
    if b(&g["vw"]) && !lexfail && tk.is_some() {
        o["vw"] = guard(|| views(&toks, code)).unwrap_or_else(|m| json!([["panic", m]]));
    }
}

#[cfg(debug_assertions)]
fn debug_at<N: Nd, T: Tk>(p: &P<N, T>, id: &str, code: &[u8], at: usize) -> Result<Vec<ASTNode<N>>, ParseError> {
    match p { P::Tok(x) => x.debug_production_at(id, code, at), P::Less(x) => x.debug_parser_at(id, code, at) }
}
#[cfg(not(debug_assertions))]
fn debug_at<N: Nd, T: Tk>(_: &P<N, T>, _: &str, _: &[u8], _: usize) -> Result<Vec<ASTNode<N>>, ParseError> {
    panic!("harness: no debugging in this build")
}
/// A printed tree: every line with its depth.
fn lines<N: Nd>(t: &ASTNode<N>, depth: usize, out: &mut Vec<Value>) {
    let mut v: Vec<u8> = vec![];
    TreeItem::write_self(t, &mut v, &ptree::Style::default()).unwrap();
    out.push(json!([depth, String::from_utf8_lossy(&v)]));
    for c in TreeItem::children(t).iter() { lines(c, depth + 1, out) }
}
/// Line and column of every offset, and of every prefix.
fn run_code(g: &Value) -> Value {
    let mut outs = vec![];
    for input in arr(&g["inputs"]) {
        tick();
        let code = bytes(input);
        let pos = guard(|| {
            let c = Code::new(&code);
            let order: Vec<usize> = if g["at"].is_array() { arr(&g["at"]).iter().map(u).collect() } else if b(&g["rev"]) { (0..=code.len()).rev().collect() } else { (0..=code.len()).collect() };
            let mut v = vec![];
            for p in order {
                let a = c.obtain_position(p);
                let q = Position::from(&code[..p]);
                let (l, k, _) = shown(&format!("{}", a));
                v.push(json!([p, a.line, a.column, q.line, q.column, l, k]));
            }
            json!(v)
        });
        let br = guard(|| json!(Code::new(&code).obtain_line_breaks()));
        outs.push(json!({"pos": pos.unwrap_or_else(|m| json!([["panic", m]])), "br": br.unwrap_or(json!(["panic"]))}));
    }
    json!({"id": g["id"], "build": "ok", "bad": 0, "inputs": outs})
}
/// Which definitions are refused.
fn run_ctor<N: Nd, T: Tk>(g: &Value) -> Value {
    let mut outs = vec![];
    for d in arr(&g["defs"]) {
        tick();
        let cx = Bld { log: vec![], at: Default::default(), twice: false, bld: false, bad: Default::default() };
        let r = guard(|| match s(&d["of"]) {
            "lexeme" => lexeme::<T>(&d["def"], &cx).map(|_| ()),
            "prod" => {
                let gg = json!({"id": format!("{}c{}", g["id"], outs.len()), "how": "direct"});
                grammar::<N, T>(&json!([d["def"]]), &gg, &cx).map(|_| ())
            }
            x => panic!("harness: {}", x),
        });
        outs.push(match r { Ok(Ok(())) => json!("ok"), Ok(Err(_)) => json!("refused"), Err(_) => json!("refused") });
    }
    json!({"id": g["id"], "build": "ok", "bad": 0, "inputs": [], "ctor": outs})
}
fn jnode<X: std::fmt::Debug>(n: &ASTNode<X>) -> Value {
    let (l, r) = n.bound.as_ref().map_or((-1, -1), |(a, c)| (num(a), num(c)));
    json!([dbg(&n.node), n.start, n.end, l, r, n.children.iter().map(jnode).collect::<Vec<_>>()])
}
fn jout<X: std::fmt::Debug>(r: Result<Result<Vec<ASTNode<X>>, ParseError>, String>) -> Value {
    match r {
        Ok(Ok(t)) => json!([0, t.iter().map(jnode).collect::<Vec<_>>()]),
        Ok(Err(e)) => { let (l, c, _) = shown(&e.message); json!([1, e.pointer, l, c]) }
        Err(m) => json!([9, m]),
    }
}
/// The two JSON parsers shipped with the library.
fn run_json(g: &Value) -> Value {
    let (a, z) = match guard(|| (examples::json::tokenized::json_grammar(), examples::json::lexerless::json_lexerless_grammar())) {
        Ok(x) => x,
        Err(e) => return json!({"id": g["id"], "build": "panic", "msg": e}),
    };
    let mut outs = vec![];
    for input in arr(&g["inputs"]) {
        tick();
        let code = bytes(input);
        let x = jout(guard(|| a.parse(&code)));
        let y = jout(guard(|| z.parse(&code)));
        outs.push(json!({"tok": x, "less": y}));
    }
    json!({"id": g["id"], "build": "ok", "bad": 0, "inputs": outs})
}
fn run_kind<N: Nd, T: Tk>(g: &Value) -> Value {
    match s(&g["mode"]) {
        "code" => run_code(g),
        "ctor" => run_ctor::<N, T>(g),
        "json" => run_json(g),
        _ => run_group::<N, T>(g),
    }
}
fn run(g: &Value) -> Value {
    EOF.with(|e| e.set(g["eof"].as_i64().unwrap_or(0)));
    REV.with(|e| e.set(b(&g["rev"])));
    NS.with(|e| *e.borrow_mut() = g["ns"].as_array().map_or(HashSet::new(), |a| a.iter().map(i).collect()));
    match g["tk"].as_str().unwrap_or("i8") {
        "ck" => run_kind::<CN, CK>(g),
        "lx" => run_kind::<CN, i8>(g),
        "i16" => run_kind::<u16, i16>(g),
        "isize" => run_kind::<usize, isize>(g),
        _ => run_kind::<u8, i8>(g),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    let first: usize = a.get(3).map_or(0, |x| x.parse().unwrap());
    let limit: u64 = std::env::var("VERIF_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(40);
    std::panic::set_hook(Box::new(|_| {}));
    let done = Arc::new(AtomicU64::new(0));
    let d2 = done.clone();
    std::thread::spawn(move || {
        // a watchdog: no progress for `limit` seconds is an endless loop
        let (mut seen, mut since) = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            if d2.load(Ordering::Relaxed) == 1 { return }
            let t = TICK.load(Ordering::Relaxed);
            if t == seen { since += 1 } else { seen = t; since = 0 }
            if since >= limit { std::process::exit(86) }
        }
    });
    for (k, line) in input.lines().enumerate() {
        if k < first { continue }
        let g: Value = serde_json::from_str(&line.unwrap()).unwrap();
        tick();
        let r = run(&g);
        writeln!(out, "{}", r).unwrap();
    }
    out.flush().unwrap();
    done.store(1, Ordering::Relaxed);
}

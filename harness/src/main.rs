//! Executes commands against libronda (built from /repo's working tree) and records one event per
//! command: arguments and everything observable. Commands and events are JSON lines; texts are
//! arrays of code points.
use ronda::verif_hooks::{Spec, VersionParsingError, VersionSpec};
use ronda::*;
use serde_json::{json, Map, Value};
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guard<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn text(v: &Value) -> String {
    v.as_array()
        .expect("text")
        .iter()
        .map(|c| std::char::from_u32(c.as_u64().unwrap() as u32).expect("scalar value"))
        .collect()
}
fn enc(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn enc_num(s: String) -> Value {
    let n = s.trim_start_matches('0');
    enc(n)
}
/// Indexes past the end, also such that have lost their upper bits when they reach a component.
fn beyond(n: usize) -> Vec<usize> {
    let mut all: Vec<usize> = [8u32, 15, 16, 20, 31, 32, 33, 48, 62, 63].iter().flat_map(|b| vec![1usize << b, (1usize << b) + n / 2]).collect();
    all.extend(vec![n * 2 + 7, usize::max_value() - 1, usize::max_value(), usize::max_value() - n]);
    all.retain(|i| *i > n + 2);
    all
}
fn enc_part(p: &VersionPart) -> Value {
    match p {
        VersionPart::Epoch(n) => json!(["E", [*n as i64]]),
        VersionPart::Integer(n) => json!(["I", enc_num(n.to_string())]),
        VersionPart::LexicographicString(s) => json!(["L", enc(s)]),
        VersionPart::PEP440String(s) => json!(["T", enc(&s.to_string())]),
        VersionPart::Empty => json!(["Z", []]),
        #[allow(unreachable_patterns)]
        _ => json!(["?", []]),
    }
}
fn enc_version(v: &Version) -> Value {
    json!([enc(v.as_str()), v.parts().iter().map(enc_part).collect::<Vec<_>>()])
}
fn read(t: &str) -> Option<Result<Version, VersionParsingError>> {
    guard(|| t.parse::<Version>())
}
fn st<T, E>(r: &Option<Result<T, E>>) -> &'static str {
    match r {
        Some(Ok(_)) => "ok",
        Some(Err(_)) => "err",
        None => "panic",
    }
}
fn num_op(o: Option<CompOp>) -> Value {
    json!(match o {
        Some(CompOp::Lt) => -1,
        Some(CompOp::Eq) => 0,
        Some(CompOp::Gt) => 1,
        Some(_) => 8,
        None => 9,
    })
}
fn num_ord(o: Option<Option<Ordering>>) -> Value {
    json!(match o {
        Some(Some(Ordering::Less)) => -1,
        Some(Some(Ordering::Equal)) => 0,
        Some(Some(Ordering::Greater)) => 1,
        Some(None) => 8,
        None => 9,
    })
}
fn tf(b: Option<bool>) -> Value {
    json!(match b {
        Some(true) => "T",
        Some(false) => "F",
        None => "P",
    })
}
const OPS: [CompOp; 10] = [
    CompOp::Eq,
    CompOp::Ne,
    CompOp::Lt,
    CompOp::Le,
    CompOp::Gt,
    CompOp::Ge,
    CompOp::StartsWith,
    CompOp::NotStartsWith,
    CompOp::Compatible,
    CompOp::Incompatible,
];
fn op_name(o: CompOp) -> &'static str {
    match o {
        CompOp::Eq => "Eq",
        CompOp::Ne => "Ne",
        CompOp::Lt => "Lt",
        CompOp::Le => "Le",
        CompOp::Gt => "Gt",
        CompOp::Ge => "Ge",
        CompOp::StartsWith => "StartsWith",
        CompOp::NotStartsWith => "NotStartsWith",
        CompOp::Compatible => "Compatible",
        CompOp::Incompatible => "Incompatible",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}
fn op_of(s: &str) -> CompOp {
    *OPS.iter().find(|o| op_name(**o) == s).expect("operator")
}

/// Everything observable of one ordered pair, restricted to the requested groups.
fn obs(a: &Version, b: &Version, w: &str) -> Value {
    let mut m = Map::new();
    for g in w.split(' ') {
        match g {
            "cmp" => {
                m.insert("cmp".into(), num_op(guard(|| a.compare_version(b))));
            }
            "rel" => {
                m.insert("cstr".into(), num_op(guard(|| a.compare_str(b.as_str()))));
                m.insert("pc".into(), num_ord(guard(|| a.partial_cmp(b))));
                m.insert(
                    "rel".into(),
                    json!([
                        tf(guard(|| a == b)),
                        tf(guard(|| a != b)),
                        tf(guard(|| a < b)),
                        tf(guard(|| a <= b)),
                        tf(guard(|| a > b)),
                        tf(guard(|| a >= b))
                    ]),
                );
            }
            "ops" => {
                let each = |f: &dyn Fn(&CompOp) -> bool| -> Value {
                    Value::Array(OPS.iter().map(|o| tf(guard(|| f(o)))).collect())
                };
                m.insert("ops".into(), each(&|o| a.compare_to_version(b, o)));
                m.insert("opss".into(), each(&|o| a.compare_to_str(b.as_str(), o)));
                m.insert("inv".into(), each(&|o| a.compare_to_version(b, &o.invert())));
                m.insert("flip".into(), each(&|o| b.compare_to_version(a, &o.flip())));
            }
            "sw" => {
                m.insert("sw".into(), tf(guard(|| a.startswith(b))));
            }
            "" => {}
            _ => panic!("unknown group"),
        }
    }
    Value::Object(m)
}

fn enc_tree(t: &ConstraintTree) -> Value {
    let c = match t.combinator {
        Combinator::And => "And",
        Combinator::Or => "Or",
        Combinator::None => "None",
        #[allow(unreachable_patterns)]
        _ => "other",
    };
    json!({"k": "n", "c": c, "p": t.parts.iter().map(enc_node).collect::<Vec<_>>()})
}
fn enc_node(n: &VersionSpecOrConstraintTree) -> Value {
    match n {
        VersionSpecOrConstraintTree::VersionSpec(s) => json!({"k": "t", "t": enc(&s.get_spec())}),
        VersionSpecOrConstraintTree::ConstraintTree(t) => enc_tree(t),
    }
}
fn no_tree() -> Value {
    json!({"k": "none"})
}

/// An ingredient of a scenario that the library no longer accepts: the scenario cannot be run, which
/// is for the property about acceptance to judge.
struct Setup;
fn setup<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => std::panic::panic_any(Setup),
    }
}

fn c_ver(c: &Value) -> Value {
    let t = text(&c["t"]);
    let r = read(&t);
    let cr = guard(|| conda_parser(&t));
    let pr = guard(|| Version::parse(&t, &conda_parser));
    let mut e = json!({"e": "ver", "t": enc(&t), "ok": st(&r), "cok": st(&cr), "pok": st(&pr)});
    if c["w"] == "ok" {
        return e;
    }
    if let Some(Ok(v)) = &r {
        e["s"] = guard(|| enc(v.as_str())).unwrap_or(json!([-1]));
        e["d"] = guard(|| enc(&format!("{}", v))).unwrap_or(json!([-1]));
        e["n"] = json!(guard(|| v.part_count() as i64).unwrap_or(-1));
        e["parts"] = guard(|| v.parts().iter().map(enc_part).collect::<Vec<_>>()).map_or(json!([["panic", []]]), |x| json!(x));
        let n = v.part_count();
        let mut ix = vec![];
        for i in (0..n + 3).chain(beyond(n)) {
            ix.push(match guard(|| v.part(i).map(enc_part)) {
                Some(Ok(p)) => p,
                Some(Err(())) => json!(["!", []]),
                None => json!(["panic", []]),
            });
        }
        e["idx"] = json!(ix);
        e["cparts"] = match &cr {
            Some(Ok(p)) => json!(p.iter().map(enc_part).collect::<Vec<_>>()),
            _ => json!([["none", []]]),
        };
        e["pparts"] = match &pr {
            Some(Ok(p)) => json!(p.parts().iter().map(enc_part).collect::<Vec<_>>()),
            _ => json!([["none", []]]),
        };
    }
    e
}

fn given_parts(given: &Value) -> Vec<VersionPart> {
    given
        .as_array()
        .unwrap()
        .iter()
        .map(|p| match p[0].as_str().unwrap() {
            "E" => VersionPart::Epoch(p[1][0].as_i64().unwrap() as _),
            "I" => {
                let s = text(&p[1]);
                VersionPart::Integer(if s.is_empty() { 0 } else { s.parse().unwrap() })
            }
            "L" => VersionPart::LexicographicString(text(&p[1])),
            "T" => conda_parser(&text(&p[1])).unwrap().remove(0),
            _ => VersionPart::Empty,
        })
        .collect()
}

/// Versions made by a parser of the caller's, which delivers the given components whatever the text is.
fn c_made(c: &Value) -> Value {
    let mut vs = vec![];
    for x in c["vs"].as_array().unwrap() {
        let parser = |_: &str| -> Result<Vec<VersionPart>, VersionParsingError> { Ok(given_parts(&x["p"])) };
        match guard(|| Version::parse(&text(&x["t"]), &parser)) {
            Some(Ok(v)) => vs.push(v),
            _ => return json!({"e": "skip"}),
        }
    }
    let texts: Vec<String> = c["texts"].as_array().unwrap().iter().map(text).collect();
    let terms: Vec<String> = c["terms"].as_array().unwrap().iter().map(text).collect();
    let mut specs = vec![];
    for t in &terms {
        match guard(|| VersionSpec::try_from(t.as_str())) {
            Some(Ok(x)) => specs.push(x),
            _ => return json!({"e": "skip"}),
        }
    }
    let rel = |f: &dyn Fn(&CompOp) -> bool| -> Value { Value::Array(OPS[..8].iter().map(|o| tf(guard(|| f(o)))).collect()) };
    json!({"e": "made",
        "vs": vs.iter().map(|v| json!({"t": enc(v.as_str()), "p": v.parts().iter().map(enc_part).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "given": c["vs"], "texts": c["texts"], "terms": c["terms"],
        "m": vs.iter().map(|a| vs.iter().map(|b| num_op(guard(|| a.compare_version(b)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "pc": vs.iter().map(|a| vs.iter().map(|b| num_ord(guard(|| a.partial_cmp(b)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "eq": vs.iter().map(|a| vs.iter().map(|b| tf(guard(|| a == b))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "ops": vs.iter().map(|a| vs.iter().map(|b| rel(&|o| a.compare_to_version(b, o))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "sw": vs.iter().map(|a| vs.iter().map(|b| tf(guard(|| a.startswith(b)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "cs": vs.iter().map(|a| texts.iter().map(|b| num_op(guard(|| a.compare_str(b)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "cso": vs.iter().map(|a| texts.iter().map(|b| rel(&|o| a.compare_to_str(b, o))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "tm": vs.iter().map(|a| specs.iter().map(|s| tf(guard(|| s.test_match_version(a)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "copies": vs.iter().map(|a| {
            let (x, y) = (a.clone(), a.clone().clone());
            json!({"t": enc(x.as_str()), "p": y.parts().iter().map(enc_part).collect::<Vec<_>>(), "n": x.part_count(),
                "m": vs.iter().map(|b| num_op(guard(|| x.compare_version(b)))).collect::<Vec<_>>(),
                "eq": vs.iter().map(|b| tf(guard(|| *b == y))).collect::<Vec<_>>(),
                "tm": specs.iter().map(|s| tf(guard(|| s.test_match_version(&x)))).collect::<Vec<_>>()})
        }).collect::<Vec<_>>(),
        "pm": vs.iter().map(|a| vs.iter().map(|b| num_ord(guard(|| a.parts()[a.part_count() - 1].partial_cmp(&b.parts()[b.part_count() - 1])))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "pe": vs.iter().map(|a| vs.iter().map(|b| tf(guard(|| a.parts()[a.part_count() - 1] == b.parts()[b.part_count() - 1]))).collect::<Vec<_>>()).collect::<Vec<_>>()
    })
}

/// A parser supplied by the caller: returns the given parts, or an error, whatever the text is.
fn c_custom(c: &Value) -> Value {
    let t = text(&c["t"]);
    let given = c["parts"].clone();
    let err = c["err"].as_u64().unwrap_or(0);
    let failure = || match err {
        1 => VersionParsingError::Message("given".to_string()),
        2 => VersionParsingError::Message(String::new()),
        3 => VersionParsingError::DisallowedCharacter,
        4 => VersionParsingError::DuplicatedEpochCharacter,
        5 => VersionParsingError::DuplicatedLocalSeparatorCharacter,
        _ => VersionParsingError::UnknownParseError,
    };
    let calls = std::cell::RefCell::new(Vec::<String>::new());
    let parser = |s: &str| -> Result<Vec<VersionPart>, VersionParsingError> {
        calls.borrow_mut().push(s.to_string());
        if err > 0 {
            return Err(failure());
        }
        let out = given_parts(&given);
        Ok(out)
    };
    let r = guard(|| Version::parse(&t, &parser));
    let mut e = json!({"e": "custom", "t": enc(&t), "given": given, "err": err > 0, "ok": st(&r)});
    if let Some(Ok(v)) = &r {
        e["s"] = enc(v.as_str());
        e["n"] = json!(v.part_count());
        e["parts"] = json!(v.parts().iter().map(enc_part).collect::<Vec<_>>());
        let n = v.part_count();
        e["idx"] = json!((0..n + 2).chain(beyond(n)).map(|i| v.part(i).map(enc_part).unwrap_or(json!(["!", []]))).collect::<Vec<_>>());
    }
    if let Some(Err(x)) = &r {
        e["same"] = json!(*x == failure());
    }
    e["arg"] = json!(calls.borrow().iter().map(|s| enc(s)).collect::<Vec<_>>());
    e
}

fn c_pair(c: &Value) -> Value {
    let (a, b) = (text(&c["a"]), text(&c["b"]));
    let w = c["w"].as_str().unwrap();
    let (ra, rb) = (read(&a), read(&b));
    let mut e = json!({"e": "pair", "a": enc(&a), "b": enc(&b), "ra": st(&ra), "rb": st(&rb)});
    if let (Some(Ok(va)), Some(Ok(vb))) = (&ra, &rb) {
        e["ab"] = obs(va, vb, w);
        e["ba"] = obs(vb, va, w);
        if w.contains("rel") {
            e["aa"] = obs(va, va, "cmp rel");
            // read again from the same text
            if let Some(Ok(va2)) = read(&a) {
                e["aa2"] = obs(va, &va2, "cmp rel");
            }
        }
        if w.contains("parts") || w.contains("sw") {
            e["pa"] = json!(va.parts().iter().map(enc_part).collect::<Vec<_>>());
            e["pb"] = json!(vb.parts().iter().map(enc_part).collect::<Vec<_>>());
        }
    }
    if c.get("x").is_some() {
        e["x"] = c["x"].clone();
    }
    e
}

/// Two versions that differ, and two continuations of them.
fn c_ext(c: &Value) -> Value {
    let vs: Vec<_> = ["a", "b", "a2", "b2"].iter().map(|k| read(&text(&c[*k]))).collect();
    let mut e = json!({"e": "ext", "a": c["a"], "b": c["b"], "a2": c["a2"], "b2": c["b2"]});
    if let [Some(Ok(a)), Some(Ok(b)), Some(Ok(a2)), Some(Ok(b2))] = &vs[..] {
        e["ok"] = json!(true);
        e["cmp"] = num_op(guard(|| a.compare_version(b)));
        e["cmp2"] = num_op(guard(|| a2.compare_version(b2)));
    } else {
        e["ok"] = json!(false);
    }
    e
}

fn c_pool(c: &Value) -> Value {
    let ts: Vec<String> = c["ts"].as_array().unwrap().iter().map(text).collect();
    let vs: Vec<_> = ts.iter().map(|t| read(t)).collect();
    let ok = vs.iter().all(|v| matches!(v, Some(Ok(_))));
    let mut e = json!({"e": "pool", "ts": c["ts"], "ok": ok});
    if !ok {
        return e;
    }
    let vs: Vec<Version> = vs.into_iter().map(|v| v.unwrap().ok().unwrap()).collect();
    match c["w"].as_str().unwrap() {
        "cmp" => {
            e["m"] = json!(vs.iter().map(|a| vs.iter().map(|b| num_op(guard(|| a.compare_version(b)))).collect::<Vec<_>>()).collect::<Vec<_>>());
            // what sorting the collection, and taking its newest, gives for a few listings of it
            let mut listings = vec![];
            let n = vs.len();
            for k in 0..4usize {
                let mut ix: Vec<usize> = (0..n).map(|i| match k { 0 => i, 1 => n - 1 - i, 2 => (i * 7 + 3) % n, _ => (i * 5 + 1) % n }).collect();
                let mut seen = ix.clone();
                seen.sort();
                seen.dedup();
                if seen.len() != n { continue; }
                let r = guard(|| {
                    ix.sort_by(|i, j| vs[*i].partial_cmp(&vs[*j]).unwrap());
                    ix.iter().map(|i| i + 1).collect::<Vec<_>>()
                });
                listings.push(match r { Some(x) => json!(x), None => json!([]) });
            }
            e["srt"] = json!(listings);
        }
        "sw" => {
            e["m"] = json!(vs.iter().map(|a| vs.iter().map(|b| tf(guard(|| a.startswith(b)))).collect::<Vec<_>>()).collect::<Vec<_>>());
        }
        _ => panic!(),
    }
    e
}

fn c_op(c: &Value) -> Value {
    let o = op_of(c["o"].as_str().unwrap());
    let g = |f: &dyn Fn() -> CompOp| guard(|| f()).map_or("panic", |x| op_name(x));
    let rd = |s: &str| guard(|| CompOp::from_sign(s)).map_or("panic", |r| r.map_or("err", op_name));
    let rn = |s: &str| guard(|| CompOp::from_name(s)).map_or("panic", |r| r.map_or("err", op_name));
    json!({"e": "op", "o": op_name(o), "sign": enc(o.sign()), "name": enc(o.name()),
        "invert": g(&|| o.invert()), "as_inverted": g(&|| o.as_inverted()),
        "opposite": g(&|| o.opposite()), "as_opposite": g(&|| o.as_opposite()),
        "flip": g(&|| o.flip()), "as_flipped": g(&|| o.as_flipped()),
        "factor": o.factor(), "ord": num_ord(guard(|| o.ord())),
        "back": o.ord().map_or("none", |x| op_name(CompOp::from_ord(x))),
        "rsign": rd(o.sign()), "rname": rn(o.name()),
        "eqs": OPS.iter().filter(|p| **p == o).map(|p| op_name(*p)).collect::<Vec<_>>()})
}
fn c_opread(c: &Value) -> Value {
    let t = text(&c["t"]);
    json!({"e": "opread", "t": enc(&t),
        "sign": guard(|| CompOp::from_sign(&t)).map_or("panic", |r| r.map_or("err", op_name)),
        "name": guard(|| CompOp::from_name(&t)).map_or("panic", |r| r.map_or("err", op_name))})
}

fn c_term(c: &Value) -> Value {
    let t = text(&c["t"]);
    let r = guard(|| VersionSpec::try_from(t.as_str()));
    let vt = guard(|| VersionSpecOrConstraintTree::try_from(t.as_str()));
    let mut e = json!({"e": "term", "t": enc(&t), "ok": st(&r), "vt": st(&vt)});
    if let Some(x) = c.get("x") {
        e["x"] = x.clone();
    }
    let sv = c.get("sv").map(text);
    let svv = sv.as_ref().and_then(|s| read(s)).and_then(|r| r.ok());
    if let Some(s) = &sv {
        e["sv"] = enc(s);
        e["svok"] = json!(svv.is_some());
    }
    if let Some(Ok(s)) = &r {
        e["spec"] = guard(|| enc(&s.get_spec())).unwrap_or(json!([-1]));
        e["raw"] = guard(|| enc(&s.raw_value())).unwrap_or(json!([-1]));
        e["exact"] = tf(guard(|| s.is_exact()));
        e["ev"] = guard(|| s.exact_value()).map_or(json!(["panic"]), |x| x.map_or(json!(["none"]), |y| json!(["some", enc(&y)])));
        if let Some(Ok(v)) = &vt {
            e["vspec"] = guard(|| enc(&v.get_spec())).unwrap_or(json!([-1]));
            e["vexact"] = tf(guard(|| v.is_exact()));
        }
    }
    let mut out = vec![];
    for ct in c["cands"].as_array().unwrap_or(&vec![]) {
        let ct = text(ct);
        if let Some(Ok(v)) = read(&ct) {
            let mut o = json!({"t": enc(&ct)});
            if let Some(Ok(s)) = &r {
                o["m"] = tf(guard(|| s.test_match(&ct)));
                o["mv"] = tf(guard(|| s.test_match_version(&v)));
                let cl = s.clone();
                o["mc"] = tf(guard(|| cl.test_match_version(&v)));
                if let Some(Ok(x)) = &vt {
                    o["vm"] = tf(guard(|| x.test_match(&ct)));
                }
            }
            if let Some(sv) = &svv {
                o["cmp"] = num_op(guard(|| v.compare_version(sv)));
                o["sw"] = tf(guard(|| v.startswith(sv)));
            }
            out.push(o);
        }
    }
    e["cands"] = json!(out);
    e
}

fn c_expr(c: &Value) -> Value {
    let t = text(&c["t"]);
    let w = c["w"].as_str().unwrap_or("");
    let r = guard(|| treeify(&t));
    let vt = guard(|| VersionSpecOrConstraintTree::try_from(t.as_str()));
    let mut e = json!({"e": "expr", "t": enc(&t), "tf": st(&r), "vt": st(&vt)});
    if let Some(x) = c.get("x") {
        e["x"] = x.clone();
    }
    let terms: Vec<String> = c["terms"].as_array().unwrap_or(&vec![]).iter().map(text).collect();
    let specs: Vec<_> = terms.iter().map(|s| guard(|| VersionSpec::try_from(s.as_str()))).collect();
    e["terms"] = json!(terms.iter().zip(&specs).map(|(s, r)| json!({"t": enc(s), "ok": st(r)})).collect::<Vec<_>>());
    if w.contains("tree") {
        e["tree"] = match &r {
            Some(Ok(x)) => enc_tree(x),
            _ => no_tree(),
        };
        e["vtree"] = match &vt {
            Some(Ok(x)) => enc_node(x),
            _ => no_tree(),
        };
    }
    let node = match &r {
        Some(Ok(x)) => Some(VersionSpecOrConstraintTree::ConstraintTree(x.clone())),
        _ => None,
    };
    let mut reread: Option<ConstraintTree> = None;
    if w.contains("render") {
        if let Some(n) = &node {
            let u = guard(|| untreeify(n));
            e["ren"] = json!(st(&u));
            if let Some(Ok(s)) = &u {
                e["rt"] = enc(s);
                e["gs"] = guard(|| enc(&n.get_spec())).unwrap_or(json!([-1]));
                e["raw"] = guard(|| enc(&n.raw_value())).unwrap_or(json!([-1]));
                e["exact"] = tf(guard(|| n.is_exact()));
                let r2 = guard(|| treeify(s));
                e["rr"] = json!(st(&r2));
                if let Some(Ok(t2)) = r2 {
                    let n2 = VersionSpecOrConstraintTree::ConstraintTree(t2.clone());
                    e["req"] = tf(guard(|| n2 == *n));
                    e["rne"] = tf(guard(|| *n != n2));
                    e["rtree"] = enc_tree(&t2);
                    e["rrt"] = match guard(|| untreeify(&n2)) {
                        Some(Ok(x)) => enc(&x),
                        _ => json!([-1]),
                    };
                    reread = Some(t2);
                }
            }
            // the other reader
            if let Some(Ok(v)) = &vt {
                e["vgs"] = match guard(|| untreeify(v)) {
                    Some(Ok(x)) => enc(&x),
                    _ => json!([-1]),
                };
            }
        }
    }
    if w.contains("debug") {
        if let Some(n) = &node {
            e["dbg"] = json!(guard(|| format!("{:?}", n)).map_or(-1, |s| s.len().min(1 << 30) as i64));
            e["dbg2"] = json!(guard(|| format!("{:#?}", n)).map_or(-1, |s| s.len().min(1 << 30) as i64));
            e["same"] = tf(guard(|| n.clone() == *n));
        }
    }
    let mut out = vec![];
    for ct in c["cands"].as_array().unwrap_or(&vec![]) {
        let ct = text(ct);
        if let Some(Ok(v)) = read(&ct) {
            let mut o = json!({"t": enc(&ct)});
            o["tv"] = Value::Array(specs.iter().map(|s| match s { Some(Ok(s)) => tf(guard(|| s.test_match_version(&v))), _ => json!("-") }).collect());
            if let Some(n) = &node {
                o["m"] = tf(guard(|| n.test_match(&ct)));
                o["mv"] = tf(guard(|| n.test_match_version(&v)));
            }
            if let Some(Ok(n)) = &vt {
                o["vm"] = tf(guard(|| n.test_match(&ct)));
                o["vmv"] = tf(guard(|| n.test_match_version(&v)));
            }
            if let Some(n) = &reread {
                o["rm"] = tf(guard(|| n.test_match_version(&v)));
            }
            out.push(o);
        }
    }
    e["cands"] = json!(out);
    e
}

/// ConstraintTree::try_from(vec![combinator, term, ...])
fn c_vec(c: &Value) -> Value {
    let items: Vec<String> = c["items"].as_array().unwrap().iter().map(text).collect();
    let r = guard(|| ConstraintTree::try_from(items.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
    let each: Vec<_> = items.iter().skip(1).map(|s| guard(|| VersionSpecOrConstraintTree::try_from(s.as_str()))).collect();
    let mut e = json!({"e": "vec", "items": c["items"], "ok": st(&r), "each": each.iter().map(|r| json!(st(r))).collect::<Vec<_>>()});
    e["tree"] = match &r {
        Some(Ok(t)) => enc_tree(t),
        _ => no_tree(),
    };
    e["trees"] = json!(each.iter().map(|r| match r { Some(Ok(t)) => enc_node(t), _ => no_tree() }).collect::<Vec<_>>());
    let mut out = vec![];
    for ct in c["cands"].as_array().unwrap_or(&vec![]) {
        let ct = text(ct);
        if let Some(Ok(v)) = read(&ct) {
            let mut o = json!({"t": enc(&ct)});
            if let Some(Ok(t)) = &r {
                o["m"] = tf(guard(|| t.test_match(&ct)));
                o["mv"] = tf(guard(|| t.test_match_version(&v)));
            }
            o["tv"] = Value::Array(each.iter().map(|s| match s { Some(Ok(s)) => tf(guard(|| s.test_match_version(&v))), _ => json!("-") }).collect());
            out.push(o);
        }
    }
    e["cands"] = json!(out);
    e
}

/// A tree built by hand through the public fields.
fn build(n: &Value) -> VersionSpecOrConstraintTree {
    if n["k"] == "t" {
        VersionSpecOrConstraintTree::VersionSpec(setup(VersionSpec::try_from(text(&n["t"]).as_str())))
    } else {
        VersionSpecOrConstraintTree::ConstraintTree(ConstraintTree {
            combinator: match n["c"].as_str().unwrap() {
                "And" => Combinator::And,
                "Or" => Combinator::Or,
                _ => Combinator::None,
            },
            parts: n["p"].as_array().unwrap().iter().map(build).collect(),
        })
    }
}
fn c_eqtree(c: &Value) -> Value {
    let (a, b) = (build(&c["a"]), build(&c["b"]));
    let mut e = json!({"e": "eqtree", "a": enc_node(&a), "b": enc_node(&b),
        "eq": tf(guard(|| a == b)), "ne": tf(guard(|| a != b)),
        "qe": tf(guard(|| b == a)), "en": tf(guard(|| b != a)),
        "aa": tf(guard(|| a == a.clone())),
        "dbg": json!(guard(|| format!("{:?}", a).len() + format!("{:#?}", a).len()).map_or(-1, |n| n as i64))});
    if let (VersionSpecOrConstraintTree::ConstraintTree(x), VersionSpecOrConstraintTree::ConstraintTree(y)) = (&a, &b) {
        e["teq"] = tf(guard(|| x == y));
    } else {
        e["teq"] = e["eq"].clone();
    }
    e
}
fn c_hand(c: &Value) -> Value {
    // matching of a tree built by hand
    let a = build(&c["a"]);
    let terms: Vec<String> = c["terms"].as_array().unwrap().iter().map(text).collect();
    let specs: Vec<_> = terms.iter().map(|s| setup(VersionSpec::try_from(s.as_str()))).collect();
    let mut out = vec![];
    for ct in c["cands"].as_array().unwrap() {
        let ct = text(ct);
        if let Some(Ok(v)) = read(&ct) {
            out.push(json!({"t": enc(&ct), "m": tf(guard(|| a.test_match(&ct))), "mv": tf(guard(|| a.test_match_version(&v))),
                "tv": specs.iter().map(|s| tf(guard(|| s.test_match_version(&v)))).collect::<Vec<_>>()}));
        }
    }
    json!({"e": "hand", "a": enc_node(&a), "terms": c["terms"], "cands": out})
}

fn enc_record(r: &Record) -> Value {
    json!({"build": enc(&r.build), "bn": enc_num(r.build_number.to_string()),
        "depends": r.depends.iter().map(|s| enc(s)).collect::<Vec<_>>(), "md5": enc(&r.md5), "name": enc(&r.name),
        "sha256": enc(&r.sha256), "size": enc_num(r.size.to_string()), "timestamp": enc_num(r.timestamp.to_string()),
        "version": enc_version(&r.version)})
}
fn enc_index(r: &Repodata) -> Value {
    let rec = enc_record;
    let sec = |m: &std::collections::HashMap<String, Record>| {
        let mut ks: Vec<&String> = m.keys().collect();
        ks.sort();
        ks.iter().map(|k| json!([enc(k), rec(&m[*k])])).collect::<Vec<_>>()
    };
    json!({"subdir": enc(&r.info.subdir), "rv": enc_num(r.repodata_version.to_string()),
        "removed": r.removed.iter().map(|s| enc(s)).collect::<Vec<_>>(),
        "packages": sec(&r.packages), "conda": sec(&r.packages_conda)})
}
fn load(path: &str) -> (&'static str, Value) {
    let r = guard(|| read_repodata(path).map_err(|e| e.to_string()));
    let s = st(&r);
    (s, match &r {
        Some(Ok(x)) => enc_index(x),
        _ => json!({"none": true}),
    })
}
fn c_index(c: &Value) -> Value {
    let mut e = c.clone();
    e["e"] = json!("index");
    let (s, v) = load(c["path"].as_str().unwrap());
    e["ok"] = json!(s);
    e["r"] = v;
    e.as_object_mut().unwrap().remove("c");
    e
}
fn c_index_many(c: &Value) -> Value {
    // several presentations of one document
    let rs: Vec<_> = c["paths"].as_array().unwrap().iter().map(|p| load(p.as_str().unwrap())).collect();
    json!({"e": "present", "x": c["x"], "ok": rs.iter().map(|r| r.0).collect::<Vec<_>>(), "r": rs.iter().map(|r| r.1.clone()).collect::<Vec<_>>()})
}

// ---- conversions ---------------------------------------------------------------------------------

enum Held {
    Term(VersionSpec),
    Tree(ConstraintTree),
    Wrapped(VersionSpecOrConstraintTree),
}
impl Held {
    fn ask<T>(&self, f: &dyn Fn(&dyn Spec) -> T) -> T {
        match self {
            Held::Term(x) => f(x),
            Held::Tree(x) => f(x),
            Held::Wrapped(x) => f(x),
        }
    }
    fn kind(&self) -> (&'static str, bool) {
        match self {
            Held::Term(_) => ("term", false),
            Held::Tree(_) => ("tree", false),
            Held::Wrapped(VersionSpecOrConstraintTree::VersionSpec(_)) => ("term", true),
            Held::Wrapped(VersionSpecOrConstraintTree::ConstraintTree(_)) => ("tree", true),
        }
    }
    fn copy(&self) -> Held {
        match self {
            Held::Term(x) => Held::Term(x.clone()),
            Held::Tree(x) => Held::Tree(x.clone()),
            Held::Wrapped(x) => Held::Wrapped(x.clone()),
        }
    }
}
/// A term or tree, and what it answers after each of some conversions.
fn c_conv(c: &Value) -> Value {
    use std::convert::TryInto;
    let t = text(&c["t"]);
    let cands: Vec<Version> = c["cands"].as_array().unwrap().iter().filter_map(|x| read(&text(x)).and_then(|r| r.ok())).collect();
    let mut h = if c["kind"] == "term" { Held::Term(setup(VersionSpec::try_from(t.as_str()))) } else { Held::Tree(setup(treeify(&t))) };
    let look = |h: &Held, res: &str| {
        let k = h.kind();
        json!({"res": [res, k.0, k.1], "spec": guard(|| h.ask(&|x| x.get_spec())).map_or(json!([-1]), |s| enc(&s)),
            "raw": guard(|| h.ask(&|x| x.raw_value())).map_or(json!([-1]), |s| enc(&s)),
            "exact": tf(guard(|| h.ask(&|x| x.is_exact()))),
            "ev": guard(|| h.ask(&|x| x.exact_value())).map_or(json!(["panic"]), |x| x.map_or(json!(["none"]), |y| json!(["some", enc(&y)]))),
            "m": cands.iter().map(|v| tf(guard(|| h.ask(&|x| x.test_match_version(v))))).collect::<Vec<_>>()})
    };
    let mut obs = vec![look(&h, "ok")];
    for op in c["ops"].as_array().unwrap() {
        let mut res = "ok";
        h = match (op.as_str().unwrap(), h) {
            ("wrap", Held::Term(x)) => Held::Wrapped(x.into()),
            ("wrap", Held::Tree(x)) => Held::Wrapped(x.into()),
            ("copy", x) => x.copy(),
            ("term", Held::Wrapped(x)) => match TryInto::<VersionSpec>::try_into(x.clone()) {
                Ok(y) => Held::Term(y),
                Err(_) => {
                    res = "err";
                    Held::Wrapped(x)
                }
            },
            ("tree", Held::Wrapped(x)) => match TryInto::<ConstraintTree>::try_into(x.clone()) {
                Ok(y) => Held::Tree(y),
                Err(_) => {
                    res = "err";
                    Held::Wrapped(x)
                }
            },
            _ => panic!("not enabled"),
        };
        obs.push(look(&h, res));
    }
    json!({"e": "conv", "t": c["t"], "kind": c["kind"], "ops": c["ops"], "obs": obs})
}
fn c_comb(c: &Value) -> Value {
    let t = text(&c["t"]);
    let k = guard(|| Combinator::from(t.as_str()));
    json!({"e": "comb", "t": c["t"], "c": match k { Some(Combinator::And) => "And", Some(Combinator::Or) => "Or", Some(Combinator::None) => "None", None => "panic" },
        "eq": k.map_or(json!([]), |k| json!([k == Combinator::And, k == Combinator::Or, k == Combinator::None, k.clone() == k]))})
}
/// Two terms, as they are and as constraints; and the first against the tree of the same text.
fn c_eqterm(c: &Value) -> Value {
    let (a, b) = (text(&c["a"]), text(&c["b"]));
    let x = setup(VersionSpec::try_from(a.as_str()));
    let y = setup(VersionSpec::try_from(b.as_str()));
    let (wx, wy): (VersionSpecOrConstraintTree, VersionSpecOrConstraintTree) = (x.clone().into(), y.clone().into());
    let mut mixed = vec![];
    for s in &[&a, &b] {
        if let Some(Ok(t)) = guard(|| treeify(s)) {
            let wt: VersionSpecOrConstraintTree = t.into();
            mixed.extend(vec![tf(guard(|| wx == wt)), tf(guard(|| wt == wx)), tf(guard(|| wt == wy)), tf(guard(|| wy == wt))]);
        }
    }
    json!({"e": "eqterm", "a": c["a"], "b": c["b"], "mixed": mixed,
        "eq": [tf(guard(|| x == y)), tf(guard(|| y == x)), tf(guard(|| wx == wy)), tf(guard(|| wy == wx))],
        "ne": [tf(guard(|| x != y)), tf(guard(|| y != x)), tf(guard(|| wx != wy)), tf(guard(|| wy != wx))],
        "self": [tf(guard(|| x == x.clone())), tf(guard(|| wx == wx.clone())), tf(guard(|| x != x.clone())), tf(guard(|| wx != wx.clone()))]})
}

// ---- other ways for an index to arrive ------------------------------------------------------------

/// A stream that follows a plan: 0 an interruption, k the next k of n parts, 98 a failure, 99 no more.
struct Planned<'a> {
    data: &'a [u8],
    extra: &'a [u8],
    n: usize,
    plan: Vec<usize>,
    sent: usize,
    piece: Vec<u8>,
}
impl<'a> Planned<'a> {
    fn part(&self, k: usize) -> Vec<u8> {
        let at = |i: usize| self.data.len() * i.min(self.n) / self.n;
        let mut p = self.data[at(self.sent)..at(self.sent + k)].to_vec();
        if self.sent + k > self.n {
            p.extend_from_slice(self.extra);
        }
        p
    }
}
impl<'a> std::io::Read for Planned<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        while self.piece.is_empty() {
            if self.plan.is_empty() {
                return Ok(0);
            }
            match self.plan.remove(0) {
                0 => return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
                98 => {
                    self.plan.insert(0, 98);
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "the stream broke"));
                }
                99 => {
                    self.plan.clear();
                    return Ok(0);
                }
                k => {
                    self.piece = self.part(k);
                    self.sent += k;
                }
            }
        }
        let k = self.piece.len().min(buf.len());
        buf[..k].copy_from_slice(&self.piece[..k]);
        self.piece.drain(..k);
        Ok(k)
    }
}

fn loaded<E: std::fmt::Display>(r: Option<Result<Repodata, E>>) -> (&'static str, Value) {
    let r = r.map(|x| x.map_err(|e| e.to_string()));
    (st(&r), match &r {
        Some(Ok(x)) => enc_index(x),
        _ => json!({"none": true}),
    })
}
fn c_ways(c: &Value) -> Value {
    use std::ffi::OsString;
    use std::os::unix::ffi::OsStringExt;
    use std::path::{Path, PathBuf};
    let path = c["path"].as_str().unwrap();
    let n = c["n"].as_u64().unwrap() as usize;
    let mut out: Vec<(&'static str, Value)> = vec![load(path)];
    // the path in other forms
    out.push(loaded(guard(|| read_repodata(path.to_string()))));
    out.push(loaded(guard(|| read_repodata(PathBuf::from(path)))));
    out.push(loaded(guard(|| read_repodata(Path::new(path)))));
    out.push(loaded(guard(|| read_repodata(OsString::from(path)))));
    out.push(loaded(guard(|| read_repodata(std::borrow::Cow::from(Path::new(path))))));
    let p = Path::new(path);
    let dir = p.parent().unwrap();
    out.push(loaded(guard(|| read_repodata(dir.join(".").join("..").join(dir.file_name().unwrap()).join(p.file_name().unwrap())))));
    let up: PathBuf = std::env::current_dir().unwrap().components().skip(1).map(|_| Path::new("..")).collect();
    out.push(loaded(guard(|| read_repodata(up.join(p.strip_prefix("/").unwrap())))));
    // by other names
    for name in c["names"].as_array().unwrap() {
        let bytes: Vec<u8> = name.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
        let mut file = path.as_bytes().to_vec();
        file.extend_from_slice(b"-d");
        let sub = PathBuf::from(OsString::from_vec(file));
        let other = sub.join(OsString::from_vec(bytes));
        std::fs::create_dir_all(&sub).unwrap();
        if c["link"] == json!(true) { std::os::unix::fs::symlink(path, &other).unwrap() } else { std::fs::copy(path, &other).map(|_| ()).unwrap() }
        out.push(loaded(guard(|| read_repodata(&other))));
        std::fs::remove_file(&other).unwrap();
    }
    let data = std::fs::read(path).unwrap();
    if let Ok(t) = std::str::from_utf8(&data) {
        out.push(loaded(guard(|| serde_json::from_str::<Repodata>(t))));
    }
    out.push(loaded(guard(|| serde_json::from_slice::<Repodata>(&data))));
    out.push(loaded(guard(|| serde_json::from_reader::<_, Repodata>(&data[..]))));
    out.push(loaded(guard(|| serde_json::from_reader::<_, Repodata>(std::io::BufReader::with_capacity(3, &data[..])))));
    if c["value"] == json!(true) {
        out.push(match guard(|| serde_json::from_slice::<Value>(&data)) {
            Some(Ok(v)) => loaded(guard(|| serde_json::from_value::<Repodata>(v))),
            _ => ("err", json!({"none": true})),
        });
    }
    let extra = text(&c["extra"]);
    let streams: Vec<_> = c["plans"].as_array().unwrap().iter().map(|p| {
        let plan: Vec<usize> = p.as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
        loaded(guard(|| serde_json::from_reader::<_, Repodata>(Planned { data: &data, extra: extra.as_bytes(), n, plan, sent: 0, piece: vec![] })))
    }).collect();
    let recs: Vec<_> = c["rectexts"].as_array().unwrap().iter().enumerate().map(|(i, t)| {
        let t = text(t);
        let r = guard(|| if i % 2 == 0 { serde_json::from_str::<Record>(&t) } else { serde_json::from_reader::<_, Record>(t.as_bytes()) }.map_err(|e| e.to_string()));
        (st(&r), match &r { Some(Ok(x)) => enc_record(x), _ => json!({"none": true}) })
    }).collect();
    json!({"e": "ways", "n": n, "plans": c["plans"], "recs": c["recs"],
        "ok": out.iter().map(|x| x.0).collect::<Vec<_>>(), "r": out.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
        "pok": streams.iter().map(|x| x.0).collect::<Vec<_>>(), "pr": streams.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
        "rok": recs.iter().map(|x| x.0).collect::<Vec<_>>(), "rr": recs.iter().map(|x| x.1.clone()).collect::<Vec<_>>()})
}

// ---- showing things -----------------------------------------------------------------------------

fn shown<F: FnOnce() -> String>(f: F) -> Value {
    guard(f).map_or(json!([-1]), |s| enc(&s))
}
/// A text read as a version and as an expression, and what was read shown in every way.
fn c_show(c: &Value) -> Value {
    let t = text(&c["t"]);
    // (with "p": the components are given by a reader of the caller's)
    let own = |_: &str| -> Result<Vec<VersionPart>, VersionParsingError> { Ok(given_parts(&c["p"])) };
    let r = if c["p"].is_array() { guard(|| Version::parse(&t, &own)) } else { read(&t) };
    let mut e = json!({"e": "show", "t": enc(&t), "ok": st(&r)});
    match &r {
        Some(Ok(v)) => {
            e["text"] = shown(|| v.as_str().to_string());
            e["parts"] = if c["p"].is_array() && v.part_count() == c["p"].as_array().unwrap().len() { c["p"].clone() } else { json!(v.parts().iter().map(enc_part).collect::<Vec<_>>()) };
            e["disp"] = shown(|| format!("{}", v));
            e["tos"] = shown(|| v.to_string());
            e["dbg"] = shown(|| format!("{:?}", v));
            e["dbg2"] = shown(|| format!("{:#?}", v));
            e["pd"] = json!(v.parts().iter().map(|p| shown(|| format!("{}", p))).collect::<Vec<_>>());
            e["pb"] = json!(v.parts().iter().map(|p| shown(|| format!("{:?}", p))).collect::<Vec<_>>());
        }
        Some(Err(x)) => e["msg"] = json!([shown(|| format!("{}", x)), shown(|| format!("{:?}", x))]),
        None => {}
    }
    let tf = guard(|| treeify(&t));
    e["tf"] = json!(st(&tf));
    match &tf {
        Some(Ok(x)) => {
            e["tree"] = enc_tree(x);
            e["tdbg"] = shown(|| format!("{:?}", x));
            e["tdbg2"] = shown(|| format!("{:#?}", x));
        }
        Some(Err(x)) => e["tmsg"] = json!([shown(|| format!("{}", x))]),
        None => {}
    }
    let vt = guard(|| VersionSpecOrConstraintTree::try_from(t.as_str()));
    e["vt"] = json!(st(&vt));
    match &vt {
        Some(Ok(x)) => {
            e["node"] = enc_node(x);
            e["vdbg"] = shown(|| format!("{:?}", x));
            e["vdbg2"] = shown(|| format!("{:#?}", x));
        }
        Some(Err(x)) => e["vmsg"] = json!([shown(|| format!("{}", x)), shown(|| format!("{:?}", x))]),
        None => {}
    }
    e
}
/// A tree built by hand, shown.
fn c_showtree(c: &Value) -> Value {
    let a = build(&c["a"]);
    json!({"e": "showtree", "node": enc_node(&a), "vdbg": shown(|| format!("{:?}", a)), "vdbg2": shown(|| format!("{:#?}", a))})
}
/// An index, or the error of loading it, shown.
fn c_showindex(c: &Value) -> Value {
    let r = guard(|| read_repodata(c["path"].as_str().unwrap()));
    let m = match &r {
        Some(Ok(x)) => vec![guard(|| format!("{:?}", x).len()), guard(|| format!("{:#?}", x).len())],
        Some(Err(x)) => vec![guard(|| format!("{}", x).len()), guard(|| format!("{:?}", x).len())],
        None => vec![],
    };
    json!({"e": "showindex", "path": c["path"], "ok": st(&r), "len": m.iter().map(|n| n.map_or(-1, |k| k.min(1 << 30) as i64)).collect::<Vec<_>>()})
}

// ---- selecting ------------------------------------------------------------------------------------

/// Constraints over the versions of an index, and over the versions read from the same texts.
fn c_select(c: &Value) -> Value {
    let idx = match guard(|| read_repodata(c["path"].as_str().unwrap())) {
        Some(Ok(x)) => x,
        _ => return json!({"e": "skip"}),
    };
    let exprs: Vec<String> = c["exprs"].as_array().unwrap().iter().map(text).collect();
    let mut cs = vec![];
    for t in &exprs {
        match guard(|| VersionSpecOrConstraintTree::try_from(t.as_str())) {
            Some(Ok(x)) => cs.push(x),
            _ => return json!({"e": "skip"}),
        }
    }
    let mut recs: Vec<(&String, &Record)> = idx.packages.iter().chain(idx.packages_conda.iter()).collect();
    recs.sort_by_key(|x| x.0);
    let vs: Vec<&Version> = recs.iter().map(|x| &x.1.version).collect();
    let ts: Vec<String> = vs.iter().map(|v| v.as_str().to_string()).collect();
    let mut ws = vec![];
    for t in &ts {
        match read(t) {
            Some(Ok(v)) => ws.push(v),
            _ => return json!({"e": "skip"}),
        }
    }
    let n = vs.len();
    let mat = |f: &dyn Fn(usize, usize) -> Value| json!((0..n).map(|i| (0..n).map(|j| f(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>());
    let rel = |a: &Version, b: &Version| -> String {
        OPS[..8].iter().map(|o| match guard(|| a.compare_to_version(b, o)) { Some(true) => 'T', Some(false) => 'F', None => 'P' }).collect::<String>()
            + match guard(|| a == b) { Some(true) => "T", Some(false) => "F", None => "P" }
    };
    // what is left of the index under each constraint, in the order the index lists it, and the highest of it
    let best: Vec<Value> = cs.iter().map(|x| {
        let left: Vec<usize> = idx.packages.iter().chain(idx.packages_conda.iter())
            .filter(|(_, r)| guard(|| x.test_match_version(&r.version)).unwrap_or(false))
            .map(|(k, r)| recs.iter().position(|y| y.0 == k && std::ptr::eq(y.1, r)).unwrap()).collect();
        let mut top: Option<usize> = None;
        for i in left {
            if top.map_or(true, |t| guard(|| vs[i] > vs[t]).unwrap_or(false)) { top = Some(i) }
        }
        json!(top.map_or(0, |i| i + 1))
    }).collect();
    json!({"e": "select", "path": c["path"], "exprs": c["exprs"], "ts": ts.iter().map(|t| enc(t)).collect::<Vec<_>>(),
        "ri": mat(&|i, j| num_op(guard(|| vs[i].compare_version(vs[j])))),
        "rt": mat(&|i, j| num_op(guard(|| ws[i].compare_version(&ws[j])))),
        "it": mat(&|i, j| num_op(guard(|| vs[i].compare_version(&ws[j])))),
        "ti": mat(&|i, j| num_op(guard(|| ws[i].compare_version(vs[j])))),
        "is": mat(&|i, j| num_op(guard(|| vs[i].compare_str(&ts[j])))),
        "oi": mat(&|i, j| json!(rel(vs[i], vs[j]))),
        "ot": mat(&|i, j| json!(rel(&ws[i], &ws[j]))),
        "si": mat(&|i, j| tf(guard(|| vs[i].startswith(vs[j])))),
        "st": mat(&|i, j| tf(guard(|| ws[i].startswith(&ws[j])))),
        "sx": mat(&|i, j| tf(guard(|| vs[i].startswith(&ws[j])))),
        "mi": cs.iter().map(|x| vs.iter().map(|v| tf(guard(|| x.test_match_version(v)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "mc": cs.iter().map(|x| vs.iter().map(|v| { let w = (*v).clone(); tf(guard(|| x.test_match_version(&w))) }).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "mt": cs.iter().map(|x| ts.iter().map(|t| tf(guard(|| x.test_match(t)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "best": best})
}
/// A constraint and its dual over a pool of versions.
fn c_sets(c: &Value) -> Value {
    let ts: Vec<String> = c["ts"].as_array().unwrap().iter().map(text).collect();
    let vs: Vec<Version> = ts.iter().map(|t| setup(t.parse())).collect();
    let ask = |k: &str| -> Vec<Value> {
        let x = setup(VersionSpecOrConstraintTree::try_from(text(&c[k]).as_str()));
        vs.iter().map(|v| tf(guard(|| x.test_match_version(v)))).collect()
    };
    json!({"e": "sets", "ts": c["ts"], "t": c["t"], "d": c["d"],
        "m": vs.iter().map(|a| vs.iter().map(|b| num_op(guard(|| a.compare_version(b)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "a": ask("t"), "b": ask("d")})
}

// ---- sessions ---------------------------------------------------------------------------------

struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

/// The objects of a session: versions and constraints, made once and then used by all calls.
struct Regs {
    vt: Vec<String>,
    v: Vec<Version>,
    ct: Vec<String>,
    c: Vec<VersionSpecOrConstraintTree>,
}
fn one_call(r: &Regs, call: &Value) -> (Value, Value) {
    let op = call[0].as_str().unwrap();
    let ix = |k: usize| call[k].as_u64().unwrap() as usize;
    let vt = |k: usize| json!(r.vt[ix(k)]);
    let ct = |k: usize| json!(r.ct[ix(k)]);
    let p = || json!("panic");
    match op {
        "cmp" => (json!([op, vt(1), vt(2)]), num_op(guard(|| r.v[ix(1)].compare_version(&r.v[ix(2)])))),
        "cstr" => (json!(["cmp", vt(1), vt(2)]), num_op(guard(|| r.v[ix(1)].compare_str(&r.vt[ix(2)])))),
        "pc" => (json!(["cmp", vt(1), vt(2)]), num_ord(guard(|| r.v[ix(1)].partial_cmp(&r.v[ix(2)])))),
        "eq" => (json!([op, vt(1), vt(2)]), tf(guard(|| r.v[ix(1)] == r.v[ix(2)]))),
        "sw" => (json!([op, vt(1), vt(2)]), tf(guard(|| r.v[ix(1)].startswith(&r.v[ix(2)])))),
        "op" => {
            let o = OPS[ix(3)];
            (json!([op, vt(1), vt(2), op_name(o)]), tf(guard(|| r.v[ix(1)].compare_to_version(&r.v[ix(2)], &o))))
        }
        "opt" => {
            let o = OPS[ix(3)];
            (json!(["op", vt(1), vt(2), op_name(o)]), tf(guard(|| r.v[ix(1)].compare_to_str(&r.vt[ix(2)], &o))))
        }
        "m" => (json!([op, ct(1), vt(2)]), tf(guard(|| r.c[ix(1)].test_match_version(&r.v[ix(2)])))),
        "mt" => (json!(["m", ct(1), vt(2)]), tf(guard(|| r.c[ix(1)].test_match(&r.vt[ix(2)])))),
        "read" => (json!([op, vt(1)]), guard(|| r.vt[ix(1)].parse::<Version>().ok().map(|v| enc_version(&v))).map_or(p(), |x| json!(x))),
        "dump" => (json!(["read", vt(1)]), guard(|| Some(enc_version(&r.v[ix(1)]))).map_or(p(), |x| json!(x))),
        "term" => (json!([op, ct(1)]), guard(|| VersionSpec::try_from(r.ct[ix(1)].as_str()).ok().map(|s| json!([s.get_spec(), s.is_exact()]))).map_or(p(), |x| json!(x))),
        "expr" => (json!([op, ct(1)]), guard(|| VersionSpecOrConstraintTree::try_from(r.ct[ix(1)].as_str()).ok().map(|s| enc_node(&s))).map_or(p(), |x| json!(x))),
        "tree" => (json!(["expr", ct(1)]), guard(|| Some(enc_node(&r.c[ix(1)]))).map_or(p(), |x| json!(x))),
        "render" => (json!([op, ct(1)]), guard(|| untreeify(&r.c[ix(1)]).ok()).map_or(p(), |x| json!(x))),
        "spec" => (json!(["render", ct(1)]), guard(|| Some(r.c[ix(1)].get_spec())).map_or(p(), |x| json!(x))),
        "debug" => (json!([op, ct(1)]), guard(|| format!("{:?}", r.c[ix(1)])).map_or(p(), |x| json!(x))),
        "exact" => (json!([op, ct(1)]), tf(guard(|| r.c[ix(1)].is_exact()))),
        "ceq" => (json!([op, ct(1), ct(2)]), tf(guard(|| r.c[ix(1)] == r.c[ix(2)]))),
        "bad" => {
            // a text that is rejected, read in between
            let t = call[1].as_str().unwrap();
            (json!([op, t]), json!([
                guard(|| t.parse::<Version>().is_ok()), guard(|| VersionSpec::try_from(t).is_ok()), guard(|| treeify(t).is_ok())]))
        }
        "badop" => {
            // a text that is rejected, where a version is asked for
            let t = call[1].as_str().unwrap();
            let (v, c) = (&r.v[ix(2)], &r.c[ix(3)]);
            (json!([op, t, vt(2), ct(3)]), json!([num_op(guard(|| v.compare_str(t))), tf(guard(|| v.compare_to_str(t, &CompOp::Le))), tf(guard(|| c.test_match(t))), guard(|| Version::from(t).part_count())]))
        }
        "load" => {
            let t = call[1].as_str().unwrap();
            let (s, v) = load(t);
            (json!([op, t]), json!([s, v]))
        }
        "put" => {
            // the same file name holds other contents, and is loaded
            let (slot, src) = (call[1].as_str().unwrap(), call[2].as_str().unwrap());
            let _ = std::fs::remove_file(slot);
            let _ = std::fs::copy(src, slot);
            let (s, v) = load(slot);
            (json!(["load", src]), json!([s, v]))
        }
        _ => panic!("unknown call {}", op),
    }
}
/// Calls in quick succession on objects that are made for one call only: each takes the memory of the one before.
fn burst(r: &Regs, call: &Value) -> Vec<(Value, Value)> {
    let op = call[1].as_str().unwrap();
    let is: Vec<usize> = call[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let j = call[3].as_u64().unwrap() as usize;
    let mode = call[4].as_u64().unwrap();
    let mut res: Vec<i64> = Vec::with_capacity(is.len());
    let ver = |k: usize| -> Option<Version> { guard(|| r.vt[k].parse::<Version>().ok()).unwrap_or(None) };
    let con = |k: usize| -> Option<VersionSpecOrConstraintTree> { guard(|| VersionSpecOrConstraintTree::try_from(r.ct[k].as_str()).ok()).unwrap_or(None) };
    let num = |x: Option<CompOp>| match x { Some(CompOp::Lt) => -1, Some(CompOp::Eq) => 0, Some(CompOp::Gt) => 1, Some(_) => 7, None => 8 };
    let yes = |x: Option<bool>| match x { Some(true) => 1, Some(false) => 0, None => 8 };
    match op {
        "cmp" | "sw" | "eq" => {
            let ask = |a: &Version, b: &Version| match op {
                "cmp" => num(guard(|| a.compare_version(b))),
                "sw" => yes(guard(|| a.startswith(b))),
                _ => yes(guard(|| a == b)),
            };
            for i in &is {
                res.push(match mode {
                    0 => ver(*i).map_or(9, |a| ask(&a, &r.v[j])),
                    1 => ver(*i).map_or(9, |a| ask(&r.v[j], &a)),
                    _ => match (ver(*i), ver(j)) { (Some(a), Some(b)) => ask(&a, &b), _ => 9 },
                });
            }
        }
        "m" => {
            // mode 0: one constraint, versions made anew; 1: one version, constraints made anew; 2: both
            for i in &is {
                res.push(match mode {
                    0 => ver(*i).map_or(9, |a| yes(guard(|| r.c[j].test_match_version(&a)))),
                    1 => con(*i).map_or(9, |c| yes(guard(|| c.test_match_version(&r.v[j])))),
                    _ => match (con(*i), ver(j)) { (Some(c), Some(a)) => yes(guard(|| c.test_match_version(&a))), _ => 9 },
                });
            }
        }
        _ => panic!("unknown burst {}", op),
    }
    is.iter().zip(res).map(|(i, x)| {
        let key = match (op, mode) {
            ("m", 0) => json!(["m", r.ct[j], r.vt[*i]]),
            ("m", _) => json!(["m", r.ct[*i], r.vt[j]]),
            (_, 1) => json!([op, r.vt[j], r.vt[*i]]),
            _ => json!([op, r.vt[*i], r.vt[j]]),
        };
        let val = match (op, x) {
            ("cmp", -1) => num_op(Some(CompOp::Lt)), ("cmp", 0) => num_op(Some(CompOp::Eq)), ("cmp", 1) => num_op(Some(CompOp::Gt)),
            (_, 0) => tf(Some(false)), (_, 1) => tf(Some(true)),
            _ => json!(["odd", x]),
        };
        (key, val)
    }).collect()
}
/// The same call over and over: the first answer, and every change of it.
fn many(r: &Regs, call: &Value) -> Vec<(Value, Value)> {
    let mut out = vec![one_call(r, &call[1])];
    for _ in 1..call[2].as_u64().unwrap() {
        let x = one_call(r, &call[1]);
        if x.1 != out[out.len() - 1].1 && out.len() < 10 { out.push(x) }
    }
    out
}
/// Calls made while another is under way: by the caller's parser, path or stream.
fn nest(r: &Regs, call: &Value) -> Vec<(Value, Value)> {
    let how = call[1].as_u64().unwrap();
    let out = std::cell::RefCell::new(vec![]);
    let inner = || {
        let x = run_lane(r, &call[3]);
        out.borrow_mut().extend(x);
    };
    struct Asked<'a>(&'a str, &'a dyn Fn());
    impl<'a> AsRef<std::path::Path> for Asked<'a> {
        fn as_ref(&self) -> &std::path::Path {
            (self.1)();
            std::path::Path::new(self.0)
        }
    }
    struct Slow<'a>(&'a [u8], usize, &'a dyn Fn());
    impl<'a> std::io::Read for Slow<'a> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            if self.0.len() == self.1 || self.0.len() == self.1 / 2 { (self.2)() }
            let n = buf.len().min(self.0.len());
            buf[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let last = if how < 4 {
        let t = r.vt[call[2].as_u64().unwrap() as usize].clone();
        let parser = |s: &str| -> Result<Vec<VersionPart>, VersionParsingError> {
            match how {
                0 => { inner(); conda_parser(s) }
                1 => { let x = conda_parser(s); inner(); x }
                2 => { inner(); Err(VersionParsingError::Message("given".to_string())) }
                _ => { inner(); panic!("the caller's parser panics") }
            }
        };
        let x = guard(|| Version::parse(&t, &parser).map(|v| enc_version(&v)));
        match (how, x) {
            (2, x) => (json!(["failing", t]), json!(match x { None => "panic", Some(Ok(_)) => "ok", Some(Err(e)) => if e == VersionParsingError::Message("given".to_string()) { "err" } else { "another" } })),
            (3, x) => (json!(["panicking", t]), json!(x.is_none())),
            (_, x) => (json!(["read", t]), x.map_or(json!("panic"), |x| json!(x.ok()))),
        }
    } else {
        let path = call[2].as_str().unwrap();
        let (s, v) = if how == 4 {
            loaded(guard(|| read_repodata(Asked(path, &inner))))
        } else {
            let b = std::fs::read(path).unwrap_or_default();
            loaded(guard(|| serde_json::from_reader::<_, Repodata>(Slow(&b, b.len(), &inner))))
        };
        (json!(["load", path]), json!([s, v]))
    };
    let mut out = out.into_inner();
    out.push(last);
    out
}
fn run_lane(r: &Regs, lane: &Value) -> Vec<(Value, Value)> {
    let mut out = vec![];
    for call in lane.as_array().unwrap() {
        match call[0].as_str().unwrap() {
            "burst" => out.extend(burst(r, call)),
            "many" => out.extend(many(r, call)),
            "sweep" => out.extend(sweep(call)),
            "nest" => out.extend(nest(r, call)),
            _ => out.push(one_call(r, call)),
        }
    }
    out
}
/// Many different objects, each made and asked twice: the ones with two answers.
fn sweep(call: &Value) -> Vec<(Value, Value)> {
    let (kind, n) = (call[1].as_str().unwrap(), call[2].as_u64().unwrap());
    let pre = call[3].as_str().unwrap();
    let base: Option<Version> = guard(|| pre.parse::<Version>().ok()).unwrap_or(None);
    let ask = |i: u64| -> Value {
        let t = format!("{}.{}", pre, i);
        match kind {
            "read" => guard(|| t.parse::<Version>().ok().map(|v| json!([enc_version(&v), base.as_ref().map(|b| num_op(Some(v.compare_version(b))))]))),
            "term" => guard(|| VersionSpec::try_from(t.as_str()).ok().map(|s| json!([s.get_spec(), s.is_exact(), s.test_match(pre), s.test_match(&t)]))),
            "wild" => guard(|| VersionSpec::try_from((t.clone() + ".*").as_str()).ok().map(|s| json!([s.get_spec(), s.is_exact(), s.test_match(&t), s.test_match(pre)]))),
            "regex" => guard(|| VersionSpec::try_from(format!("^{}.*$", t).as_str()).ok().map(|s| json!([s.get_spec(), s.test_match(&t), s.test_match(pre)]))),
            "expr" => guard(|| VersionSpecOrConstraintTree::try_from(format!("<{}|{}", t, t).as_str()).ok().map(|s| json!([untreeify(&s).ok(), s.test_match(&t), s.test_match(pre)]))),
            _ => panic!("unknown sweep {}", kind),
        }.map_or(json!("panic"), |x| json!(x))
    };
    let first: Vec<Value> = (0..n).map(&ask).collect();
    let mut out = vec![(json!(["sweep", kind, n, pre]), json!(0))];
    for i in (0..n).rev() {
        let again = ask(i);
        if again != first[i as usize] && out.len() < 10 {
            let k = json!(["swept", kind, pre, i]);
            out.push((k.clone(), first[i as usize].clone()));
            out.push((k, again));
        }
    }
    out
}
fn c_session(c: &Value) -> Value {
    let vt: Vec<String> = c["vs"].as_array().unwrap().iter().map(text).collect();
    let ct: Vec<String> = c["cs"].as_array().unwrap().iter().map(text).collect();
    // a text that is not accepted is one answer, and "1" takes its place
    let mut made = vec![];
    let (mut vt, mut ct) = (vt, ct);
    let v: Vec<Version> = vt.iter_mut().map(|t| {
        let x = guard(|| t.parse::<Version>().ok()).unwrap_or(None);
        made.push((json!(["version", t]), json!(x.is_some())));
        x.unwrap_or_else(|| { *t = "1".to_string(); setup(t.parse()) })
    }).collect();
    let cc: Vec<VersionSpecOrConstraintTree> = ct.iter_mut().map(|t| {
        let x = guard(|| VersionSpecOrConstraintTree::try_from(t.as_str()).ok()).unwrap_or(None);
        made.push((json!(["constraint", t]), json!(x.is_some())));
        x.unwrap_or_else(|| { *t = "1".to_string(); setup(VersionSpecOrConstraintTree::try_from(t.as_str())) })
    }).collect();
    let regs = std::sync::Arc::new(Shared(Regs { vt, v, ct, c: cc }));
    let lanes: Vec<Value> = c["lanes"].as_array().unwrap().clone();
    let mut all: Vec<Vec<(Value, Value)>> = vec![made];
    if lanes.len() == 1 {
        all.push(run_lane(&regs.0, &lanes[0]));
    } else {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(lanes.len()));
        let hs: Vec<_> = lanes
            .into_iter()
            .map(|lane| {
                let (regs, bar) = (regs.clone(), bar.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    bar.wait();
                    run_lane(&regs.0, &lane)
                }).unwrap()
            })
            .collect();
        for h in hs {
            all.push(h.join().unwrap_or_default());
        }
    }
    json!({"e": "session", "lanes": all.iter().map(|l| l.iter().map(|(k, r)| json!([k.to_string(), r.to_string()])).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

fn run(c: &Value) -> Value {
    match c["c"].as_str().unwrap() {
        "ver" => c_ver(c),
        "custom" => c_custom(c),
        "made" => c_made(c),
        "pair" => c_pair(c),
        "pool" => c_pool(c),
        "ext" => c_ext(c),
        "op" => c_op(c),
        "opread" => c_opread(c),
        "term" => c_term(c),
        "expr" => c_expr(c),
        "vec" => c_vec(c),
        "eqtree" => c_eqtree(c),
        "hand" => c_hand(c),
        "index" => c_index(c),
        "ways" => c_ways(c),
        "conv" => c_conv(c),
        "comb" => c_comb(c),
        "eqterm" => c_eqterm(c),
        "present" => c_index_many(c),
        "session" => c_session(c),
        "show" => c_show(c),
        "showtree" => c_showtree(c),
        "showindex" => c_showindex(c),
        "select" => c_select(c),
        "sets" => c_sets(c),
        x => panic!("unknown command {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).unwrap();
        let s = match catch_unwind(AssertUnwindSafe(|| run(&c))) {
            Ok(e) => e.to_string(),
            Err(p) if p.is::<Setup>() => json!({"e": "skip", "c": c["c"]}).to_string(),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"e": "harness-panic", "why": m}).to_string()
            }
        };
        let mut o = out.lock();
        o.write_all(s.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

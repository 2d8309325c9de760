//! Parsing: what the library makes of a document, next to what the XML, CSS and value libraries read in it.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use svgdom::*;
use crate::json::{esc, strs, J};
use crate::proj::{preorder, Table};

fn ns(uri: Option<&str>) -> &'static str {
    match uri {
        None => "",
        Some("http://www.w3.org/2000/svg") => "svg",
        Some("http://www.w3.org/1999/xlink") => "xlink",
        Some("http://www.w3.org/XML/1998/namespace") => "xml",
        _ => "other",
    }
}

/// The XML tree: nodes in document order with the number of their parent (0: the document).
pub fn xml_tree(d: &roxmltree::Document, decls: bool) -> String {
    let all: Vec<roxmltree::Node> = d.descendants().skip(1).collect();
    let mut v = Vec::new();
    for n in &all {
        let par = n.parent().and_then(|p| all.iter().position(|x| *x == p)).map_or(0, |i| i + 1);
        let (k, tx) = match n.node_type() {
            roxmltree::NodeType::Element => ("element", ""),
            roxmltree::NodeType::Text => ("text", n.text().unwrap_or("")),
            roxmltree::NodeType::Comment => ("comment", n.text().unwrap_or("")),
            _ => ("pi", ""),
        };
        let mut at = Vec::new();
        let mut de = Vec::new();
        if n.is_element() {
            for a in n.attributes() {
                at.push(format!("{{\"ns\":\"{}\",\"n\":{},\"v\":{}}}", ns(a.namespace()), esc(a.name()), esc(a.value())));
            }
            if decls {
                if let Some(s) = n.attribute("style") {
                    for d in simplecss::DeclarationTokenizer::from(s) {
                        de.push(format!("{{\"n\":{},\"v\":{}}}", esc(d.name), esc(d.value)));
                    }
                }
            }
        }
        let name = if n.is_element() { n.tag_name().name() } else { "" };
        let nsp = if n.is_element() { ns(n.tag_name().namespace()) } else { "" };
        v.push(format!("{{\"k\":\"{}\",\"ns\":\"{}\",\"n\":{},\"tx\":{},\"par\":{},\"at\":[{}],\"de\":[{}]}}",
            k, nsp, esc(name), esc(tx), par, at.join(","), de.join(",")));
    }
    format!("[{}]", v.join(","))
}

/// How an XML parser reads an output.
pub fn reading(s: &str) -> String {
    match roxmltree::Document::parse(s) {
        Ok(d) => format!("\"wf\":true,\"rd\":{}", xml_tree(&d, false)),
        Err(_) => "\"wf\":false,\"rd\":[]".into(),
    }
}

fn project(doc: &Document) -> String {
    let t = Table(preorder(&doc.root(), 200_000));
    let v: Vec<String> = t.0.iter().map(|n| t.node(n)).collect();
    format!("[{}]", v.join(","))
}

fn err(e: &ParserError) -> String {
    match e {
        ParserError::NoSvgElement => "nosvg".into(),
        ParserError::RoXmlError(_) => "xml".into(),
        e => format!("error: {}", e),
    }
}

/// The values of all attributes under value options (nothing for the default ones).
fn spelled(doc: &Document, o: &str) -> String {
    if o.len() <= 3 { return "[]".into(); }
    spelling(&preorder(&doc.root(), 200_000), o)
}

/// The values of all the attributes of these nodes, as the value types write them.
pub fn spelling(nodes: &[Node], o: &str) -> String {
    if o.len() <= 3 { return "[]".into(); }
    let opt = crate::dom::values(o);
    let v: Vec<String> = nodes.iter().map(|n| {
        let a: Vec<String> = n.attributes().iter().map(|a| {
            let (_, t, _, fb) = crate::proj::value_opt(&a.value, &opt);
            format!("{{\"t\":{},\"fb\":{}}}", esc(&t), esc(&fb))
        }).collect();
        format!("[{}]", a.join(","))
    }).collect();
    format!("[{}]", v.join(","))
}

/// result, nodes, outputs, values under each option
fn one(text: &str, opts: &[String], nodes: bool) -> (String, String, Vec<String>, String) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        match Document::from_str(text) {
            Ok(d) => {
                let s = if nodes { project(&d) } else { "[]".into() };
                let w: Result<Vec<String>, _> = catch_unwind(AssertUnwindSafe(||
                    opts.iter().map(|o| crate::dom::written(&d, o)).collect()));
                let v: Vec<String> = if nodes { opts.iter().map(|o| spelled(&d, o)).collect() } else { Vec::new() };
                let v = format!("[{}]", v.join(","));
                match w { Ok(w) => ("ok".to_string(), s, w, v), Err(_) => ("write panic".to_string(), s, Vec::new(), v) }
            }
            Err(e) => { let _ = format!("{} {:?}", e, e); (err(&e), "[]".into(), Vec::new(), "[]".into()) }
        }
    }));
    r.unwrap_or_else(|_| ("panic".into(), "[]".into(), Vec::new(), "[]".into()))
}

pub fn run(path: &str, out: &mut impl Write) {
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let text = j.get("x").str();
        let opts: Vec<String> = j.get("o").arr().iter().map(|x| x.str().to_string()).collect();
        let brief = j.get("brief").bool();
        let (wf, xml, root) = match roxmltree::Document::parse(text) {
            Ok(d) => {
                let e = d.root_element().tag_name();
                (true, if brief { "[]".into() } else { xml_tree(&d, true) },
                 format!("{{\"ns\":\"{}\",\"n\":{}}}", ns(e.namespace()), esc(e.name())))
            }
            Err(_) => (false, "[]".into(), "{\"ns\":\"\",\"n\":\"\"}".into()),
        };
        let (r, s, w, vs) = one(text, &opts, !brief);
        let again = if j.get("again").bool() {
            let v: Vec<String> = w.iter().zip(&opts).map(|(t, o)| {
                let (r, s, w, _) = one(t, &[o.clone()], true);
                let same = w.get(0) == Some(t);
                format!("{{\"r\":{},\"s\":{},\"same\":{}}}", esc(&r), s, same)
            }).collect();
            format!("[{}]", v.join(","))
        } else { "[]".into() };
        let rd = if j.get("read").bool() {
            let v: Vec<String> = w.iter().map(|t| format!("{{{}}}", reading(t))).collect();
            format!("[{}]", v.join(","))
        } else { "[]".into() };
        writeln!(out, "{{\"vs\":{},\"rd\":{},\"wf\":{},\"root\":{},\"xml\":{},\"r\":{},\"s\":{},\"w\":{},\"again\":{}}}", vs, rd, wf, root, xml, esc(&r), s, strs(&w), again).unwrap();
        out.flush().unwrap();
    }
}

fn wb<T: WriteBuffer + ?Sized>(v: &T) -> String {
    let mut b = Vec::new();
    v.write_buf_opt(&ValueWriteOptions::default(), &mut b);
    String::from_utf8(b).unwrap()
}

/// How the value library reads one string as each of the SVG data types ("!": it does not).
pub fn lex(s: &str) -> String {
    fn p<T: FromStr + WriteBuffer>(s: &str) -> String { T::from_str(s).map(|v| wb(&v)).unwrap_or_else(|_| "!".into()) }
    let num = |s: &str| -> Option<f64> {
        let mut st = svgtypes::Stream::from(s);
        let n = st.parse_number().ok()?;
        if st.at_end() { Some(n) } else { None }
    };
    let n = num(s);
    let unit = match svgtypes::Length::from_str(s) {
        Ok(l) => match l.unit { svgtypes::LengthUnit::None => "none", svgtypes::LengthUnit::Percent => "percent", _ => "unit" },
        Err(_) => "!",
    };
    let fbs = |f: Option<svgtypes::PaintFallback>| match f {
        None => String::new(),
        Some(svgtypes::PaintFallback::None) => "none".into(),
        Some(svgtypes::PaintFallback::CurrentColor) => "currentColor".into(),
        Some(svgtypes::PaintFallback::Color(c)) => wb(&c),
    };
    let (pk, pt, pf) = match svgtypes::Paint::from_str(s) {
        Err(_) => ("!", String::new(), String::new()),
        Ok(svgtypes::Paint::None) => ("none", String::new(), String::new()),
        Ok(svgtypes::Paint::Inherit) => ("inherit", String::new(), String::new()),
        Ok(svgtypes::Paint::CurrentColor) => ("current", String::new(), String::new()),
        Ok(svgtypes::Paint::Color(c)) => ("color", wb(&c), String::new()),
        Ok(svgtypes::Paint::FuncIRI(l, f)) => ("iri", l.to_string(), fbs(f)),
    };
    let path = {
        let mut v = Vec::new();
        for t in svgtypes::PathParser::from(s) { match t { Ok(t) => v.push(t), Err(_) => break } }
        if v.is_empty() { String::new() } else { wb(&svgtypes::Path(v)) }
    };
    let (ts, id) = match svgtypes::Transform::from_str(s) {
        Ok(t) => (wb(&t), t.is_default()),
        Err(_) => ("!".into(), false),
    };
    let list = |r: Option<(usize, String)>| r.map_or("!".to_string(), |(n, s)| if n == 0 { "".into() } else { s });
    let opt = |r: Option<&str>| r.unwrap_or("!").to_string();
    let f: Vec<(&str, String)> = vec![
        ("length", p::<svgtypes::Length>(s)), ("unit", unit.into()),
        ("lengths", list(svgtypes::LengthList::from_str(s).ok().map(|l| (l.0.len(), wb(&l.0))))),
        ("number", n.map_or("!".into(), |n| wb(&n))),
        ("range", n.map_or("!", |n| if n > 1.0 { "high" } else if n < 0.0 { "low" } else { "in" }).into()),
        ("numbers", list(svgtypes::NumberList::from_str(s).ok().map(|l| (l.0.len(), wb(&l.0))))),
        ("color", p::<svgtypes::Color>(s)), ("paint", pk.into()), ("pt", pt), ("pf", pf),
        ("points", svgtypes::Points::from_str(s).map(|l| wb(&l.0)).unwrap_or("!".into())),
        ("path", path), ("transform", ts), ("identity", if id { "yes" } else { "no" }.into()),
        ("angle", p::<svgtypes::Angle>(s)), ("viewbox", p::<svgtypes::ViewBox>(s)), ("aspect", p::<svgtypes::AspectRatio>(s)),
        ("iri", opt(svgtypes::Stream::from(s).parse_iri().ok())),
        ("func", opt(svgtypes::Stream::from(s).parse_func_iri().ok())),
    ];
    let v: Vec<String> = f.iter().map(|(k, v)| format!("\"{}\":{}", k, esc(v))).collect();
    format!("{{{}}}", v.join(","))
}

pub fn run_lex(path: &str, out: &mut impl Write) {
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let s = j.str().to_string();
        let r = catch_unwind(AssertUnwindSafe(|| lex(&s))).unwrap_or_else(|_| "null".into());
        writeln!(out, "{}", r).unwrap();
    }
}

/// The declarations of a CSS block, as the CSS library reads them.
pub fn run_decls(path: &str, out: &mut impl Write) {
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let v: Vec<String> = simplecss::DeclarationTokenizer::from(j.str())
            .map(|d| format!("{{\"n\":{},\"v\":{}}}", esc(d.name), esc(d.value))).collect();
        writeln!(out, "[{}]", v.join(",")).unwrap();
    }
}

/// Builds documents node by node through the public calls and writes them.
pub fn run_build(path: &str, out: &mut impl Write) {
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let nd = j.get("nd").arr();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut doc = Document::new();
            let mut t = Table(vec![doc.root()]);
            for x in &nd[1..] {
                let tag = x.get("tag").str();
                let mut n = match x.get("k").str() {
                    "element" => if tag.starts_with('@') { doc.create_element(&tag[1..]) } else { doc.create_element(ElementId::from_str(tag).unwrap()) },
                    "text" => doc.create_node(NodeType::Text, x.get("tx").str()),
                    _ => doc.create_node(NodeType::Comment, x.get("tx").str()),
                };
                if !x.get("id").str().is_empty() { n.set_id(x.get("id").str()); }
                t.0.push(n);
            }
            for (i, x) in nd.iter().enumerate() {
                for k in x.get("kids").arr() { let c = t.0[k.int() as usize - 1].clone(); t.0[i].clone().append(c); }
                for a in x.get("at").arr() {
                    let to = a.get("to").int();
                    let o = crate::dom::Op { s: a.get("n").str().into(), y: to as usize,
                        k: if to > 0 { "link".into() } else { a.get("k").str().into() },
                        t: a.get("t").str().into(), fb: a.get("fb").str().into(), ..Default::default() };
                    let at = crate::dom::attribute(&t, &o);
                    t.0[i].clone().set_attribute(at);
                }
            }
            let w: Vec<String> = j.get("o").arr().iter().map(|o| crate::dom::written(&doc, o.str())).collect();
            let wf: Vec<String> = w.iter().map(|s| roxmltree::Document::parse(s).is_ok().to_string()).collect();
            format!("{{\"r\":\"ok\",\"w\":{},\"wf\":[{}]}}", strs(&w), wf.join(","))
        }));
        writeln!(out, "{}", r.unwrap_or_else(|_| "{\"r\":\"panic\",\"w\":[],\"wf\":[]}".into())).unwrap();
        out.flush().unwrap();
    }
}

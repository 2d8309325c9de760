//! The tables of the library: names, classes, defaults and value conversions, as they answer.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use svgdom::*;
use crate::ids::{ATTRIBUTES, ELEMENTS};
use crate::json::{esc, strs, J};
use crate::proj::value;

fn guard<F: FnOnce() -> String>(f: F) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}

fn element_classes(n: &Node) -> String {
    let l = [("referenced", n.is_referenced()), ("basic", n.is_basic_shape()), ("shape", n.is_shape()),
        ("container", n.is_container()), ("text", n.is_text_content()), ("textchild", n.is_text_content_child()),
        ("graphic", n.is_graphic()), ("gradient", n.is_gradient()), ("paint", n.is_paint_server()),
        ("primitive", n.is_filter_primitive())];
    strs(&l.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>())
}

fn attribute_classes<T: AttributeType>(a: &T) -> String {
    let l = [("presentation", a.is_presentation()), ("inheritable", a.is_inheritable()), ("animation", a.is_animation_event()),
        ("graphical", a.is_graphical_event()), ("document", a.is_document_event()),
        ("conditional", a.is_conditional_processing()), ("core", a.is_core()), ("fill", a.is_fill()), ("stroke", a.is_stroke())];
    strs(&l.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>())
}

fn qname<T: SvgId + std::fmt::Debug>(id: T, other: T) -> String {
    let r: QNameRef<T> = QNameRef::from(id);
    let q: QName<T> = r.into();
    let n: QName<T> = QNameRef::from(id.name()).into();
    let l = [("ref", r.has_id(id)), ("name", q.has_id(id)), ("back", q.as_ref() == r), ("eq", q == QName::Id(id)),
        ("!other", !r.has_id(other) && !q.has_id(other)), ("!named", !n.has_id(id) && n != q && !n.as_ref().has_id(id)),
        ("text", n == QName::Name(id.name().to_string()) && n.as_ref() == QNameRef::Name(id.name()))];
    l.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>().join(" ")
}

fn known(v: Option<&AttributeValue>) -> String {
    match v {
        None => "{\"k\":\"\",\"t\":\"\"}".into(),
        Some(v) => { let (k, t, _, _) = value(v); format!("{{\"k\":\"{}\",\"t\":{}}}", k, esc(&t)) }
    }
}

fn converted(s: &str, ctor: &str) -> Option<AttributeValue> {
    let num = |s: &str| s.parse::<f64>().ok().filter(|n| n.is_finite());
    Some(match ctor {
        "str" => AttributeValue::from(s),
        "string" => AttributeValue::from(s.to_string()),
        "f64" => AttributeValue::from(num(s)?),
        "i32" => AttributeValue::from(s.parse::<i32>().ok()?),
        "length" => AttributeValue::from(s.parse::<Length>().ok()?),
        "f64 unit" => { let l: Length = s.parse().ok()?; AttributeValue::from((l.num, l.unit)) }
        "i32 unit" => { let l: Length = s.parse().ok()?; if l.num.fract() != 0.0 || l.num.abs() > 1e9 { return None; } AttributeValue::from((l.num as i32, l.unit)) }
        "lengths" => AttributeValue::from(s.parse::<LengthList>().ok()?),
        "angle" => AttributeValue::from(s.parse::<Angle>().ok()?),
        "numbers" => AttributeValue::from(s.parse::<NumberList>().ok()?),
        "color" => AttributeValue::from(s.parse::<Color>().ok()?),
        "path" => AttributeValue::from(s.parse::<Path>().ok()?),
        "points" => AttributeValue::from(s.parse::<Points>().ok()?),
        "transform" => AttributeValue::from(s.parse::<Transform>().ok()?),
        "viewbox" => AttributeValue::from(s.parse::<ViewBox>().ok()?),
        "aspect" => AttributeValue::from(s.parse::<AspectRatio>().ok()?),
        "fallback" => AttributeValue::from(match s {
            "none" => PaintFallback::None,
            "currentColor" => PaintFallback::CurrentColor,
            _ => PaintFallback::Color(s.parse().ok()?),
        }),
        "keyword" => match s { "none" => AttributeValue::None, "inherit" => AttributeValue::Inherit, "currentColor" => AttributeValue::CurrentColor, _ => return None },
        _ => return None,
    })
}

/// A link made by every conversion there is, under every attribute name.
fn links(doc: &mut Document, out: &mut impl Write) {
    let mut t = doc.create_element(ElementId::Pattern);
    t.set_id("t-1");
    let mut u = doc.create_element(ElementId::Pattern);
    u.set_id("t-1");
    let color = "#102030".parse::<Color>().unwrap();
    let fbs = [("", None), ("none", Some(PaintFallback::None)), ("currentColor", Some(PaintFallback::CurrentColor)), ("#102030", Some(PaintFallback::Color(color)))];
    let mut names: Vec<(&str, Option<AttributeId>)> = ATTRIBUTES.iter().map(|&(n, id)| (n, Some(id))).collect();
    names.extend(ATTRIBUTES.iter().map(|&(n, _)| (n, None)));
    names.push(("x-y", None));
    for (n, id) in names {
        let q = || match id { Some(id) => QNameRef::Id(id), None => QNameRef::Name(n) };
        let make = |to: &Node, how: &str| -> Option<Attribute> { Some(match how {
            "node" => Attribute::from((q(), to.clone())),
            "link" => Attribute::new(q(), AttributeValue::Link(to.clone())),
            "func" => Attribute::from((q(), AttributeValue::FuncLink(to.clone()))),
            _ => return None,
        }) };
        let mut all: Vec<(&str, &str, Attribute, Attribute)> = ["node", "link", "func"].iter()
            .map(|h| (*h, "", make(&t, h).unwrap(), make(&u, h).unwrap())).collect();
        for (f, fb) in &fbs {
            all.push(("pair", f, Attribute::from((q(), (t.clone(), fb.clone()))), Attribute::from((q(), (u.clone(), fb.clone())))));
            all.push(("paint", f, Attribute::new(q(), AttributeValue::Paint(t.clone(), fb.clone())), Attribute::new(q(), AttributeValue::Paint(u.clone(), fb.clone()))));
        }
        for (how, f, a, b) in all {
            let (k, _, to, fb) = value(&a.value);
            let ok = to.as_ref() == Some(&t) && a.clone() == a && a != b && a.value != b.value && crate::proj::aname(&a.name) == match id { Some(_) => n.to_string(), None => format!("@{}", n) };
            writeln!(out, "{{\"r\":\"link\",\"n\":{},\"id\":{},\"how\":\"{}\",\"f\":\"{}\",\"k\":\"{}\",\"fb\":\"{}\",\"ok\":{},\"is\":{},\"shown\":{},\"noted\":{}}}",
                esc(n), id.is_some(), how, f, k, fb, ok, esc(&crate::dom::is_what(&a)), esc(&format!("{}", a.value)), esc(&format!("{}", a))).unwrap();
        }
    }
}

/// The same value as text, without passing through the library under test.
fn original(s: &str, ctor: &str) -> String {
    use std::str::FromStr;
    let lex = crate::parse::lex(s);
    let j = J::parse(&lex);
    match ctor {
        "str" | "string" => s.to_string(),
        "keyword" => String::new(),
        "f64" | "i32" => { let mut b = Vec::new(); f64::from_str(s).unwrap().write_buf_opt(&ValueWriteOptions::default(), &mut b); String::from_utf8(b).unwrap() }
        "fallback" => if s == "none" || s == "currentColor" { String::new() } else { j.get("color").str().to_string() },
        "f64 unit" | "i32 unit" => j.get("length").str().to_string(),
        "path" => { let p = Path::from_str(s).unwrap(); let mut b = Vec::new(); p.write_buf_opt(&ValueWriteOptions::default(), &mut b); String::from_utf8(b).unwrap() }
        c => j.get(c).str().to_string(),
    }
}

pub fn run(path: &str, out: &mut impl Write) {
    let mut doc = Document::new();
    for (i, &(name, id)) in ELEMENTS.iter().enumerate() {
        let prev = ELEMENTS[if i == 0 { ELEMENTS.len() - 1 } else { i - 1 }].1;
        let n = doc.create_element(id);
        let same = ELEMENTS.iter().filter(|e| e.1 == id).count();
        writeln!(out, "{{\"r\":\"element\",\"n\":{},\"pos\":{},\"from\":{},\"as\":{},\"dis\":{},\"deb\":{},\"gen\":{},\"qn\":{},\"up\":{},\"same\":{},\"q\":{},\"cls\":{}}}",
            esc(name), id as usize + 1, esc(&guard(|| match ElementId::from_str(name) { Some(x) if x == id => "itself".into(), Some(x) => x.as_str().into(), None => "".into() })),
            esc(&guard(|| id.as_str().into())), esc(&guard(|| format!("{}", id))), esc(&guard(|| format!("{:?}", id))),
            esc(&guard(|| id.name().to_string())), esc(&guard(|| format!("{}", QName::Id(id)))),
            i == 0 || (id > prev && prev < id && id.cmp(&prev) == std::cmp::Ordering::Greater), same, esc(&guard(|| qname(id, prev))),
            element_classes(&n)).unwrap();
    }
    for (i, &(name, id)) in ATTRIBUTES.iter().enumerate() {
        let prev = ATTRIBUTES[if i == 0 { ATTRIBUTES.len() - 1 } else { i - 1 }].1;
        let same = ATTRIBUTES.iter().filter(|e| e.1 == id).count();
        let a = Attribute::new(id, "x");
        let acc = [("id", a.id() == Some(id)), ("has", a.has_id(id)), ("!has", !a.has_id(prev)), ("svg", a.is_svg())];
        let acc = acc.iter().filter(|x| x.1).map(|x| x.0).collect::<Vec<_>>().join(" ");
        let d = AttributeValue::default_value(id);
        let nd = Attribute::new_default(id);
        writeln!(out, "{{\"r\":\"attribute\",\"n\":{},\"pos\":{},\"from\":{},\"as\":{},\"dis\":{},\"deb\":{},\"gen\":{},\"qn\":{},\"up\":{},\"same\":{},\"q\":{},\"acc\":{},\"cls\":{},\"cla\":{},\"def\":{},\"nd\":{},\"ndn\":{}}}",
            esc(name), id as usize + 1, esc(&guard(|| match AttributeId::from_str(name) { Some(x) if x == id => "itself".into(), Some(x) => x.as_str().into(), None => "".into() })),
            esc(&guard(|| id.as_str().into())), esc(&guard(|| format!("{}", id))), esc(&guard(|| format!("{:?}", id))),
            esc(&guard(|| id.name().to_string())), esc(&guard(|| format!("{}", QName::Id(id)))),
            i == 0 || (id > prev && prev < id && id.cmp(&prev) == std::cmp::Ordering::Greater), same, esc(&guard(|| qname(id, prev))), esc(&acc),
            attribute_classes(&id), attribute_classes(&a), known(d.as_ref()), known(nd.as_ref().map(|a| &a.value)),
            esc(&nd.map_or(String::new(), |a| crate::proj::aname(&a.name)))).unwrap();
    }
    // nodes and attributes that are in no class
    let mut others: Vec<(String, Node)> = vec![("root".into(), doc.root()), ("text".into(), doc.create_node(NodeType::Text, "rect")),
        ("comment".into(), doc.create_node(NodeType::Comment, "g"))];
    for &(name, _) in ELEMENTS { others.push((name.into(), doc.create_element(name))); }
    for (what, n) in &others {
        writeln!(out, "{{\"r\":\"other\",\"n\":{},\"cls\":{},\"svg\":{}}}", esc(what), element_classes(n), n.tag_id().is_some()).unwrap();
    }
    for &(name, _) in ATTRIBUTES {
        let a = Attribute::new(name, "x");
        writeln!(out, "{{\"r\":\"other\",\"n\":{},\"cls\":{},\"svg\":{}}}", esc(name), attribute_classes(&a), a.is_svg() || a.id().is_some() ).unwrap();
    }
    links(&mut doc, out);
    for l in crate::lines(path) {
        let j = J::parse(&l);
        let s = j.get("s").str();
        if j.get("c").str().is_empty() {
            let e = guard(|| ElementId::from_str(s).map_or(String::new(), |x| x.as_str().to_string()));
            let a = guard(|| AttributeId::from_str(s).map_or(String::new(), |x| x.as_str().to_string()));
            writeln!(out, "{{\"r\":\"probe\",\"n\":{},\"e\":{},\"a\":{}}}", esc(s), esc(&e), esc(&a)).unwrap();
        } else {
            let c = j.get("c").str();
            if let Some(v) = converted(s, c) {
                let (k, t, _, _) = value(&v);
                let a = Attribute::new("x", v.clone());
                let b = Attribute::new(AttributeId::X, v.clone());
                let is = crate::dom::is_what(&a);
                let ok = a.value == v && b.value == v && a == Attribute::from(("x", v.clone())) && b == Attribute::from((AttributeId::X, v.clone())) && a != b && is == crate::dom::is_what(&b);
                let shown = format!("{}", v);
                let noted = format!("{}", a);
                writeln!(out, "{{\"r\":\"value\",\"n\":{},\"c\":{},\"k\":\"{}\",\"t\":{},\"orig\":{},\"is\":{},\"ok\":{},\"shown\":{},\"noted\":{}}}",
                    esc(s), esc(c), k, esc(&t), esc(&original(s, c)), esc(&is), ok, esc(&shown), esc(&noted)).unwrap();
            }
        }
    }
}

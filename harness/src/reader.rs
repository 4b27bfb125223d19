//! Independent strict reader of serialised iCalendar text (RFC 5545 section 3.1), sharing nothing with ikal.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct RLine {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub value: String,
}

#[derive(Clone, Debug)]
pub struct RNode {
    pub name: String,
    pub lines: Vec<RLine>,
    pub kids: Vec<RNode>,
}

/// Checks the physical form and returns the unfolded content lines.
pub fn physical(s: &str) -> Result<Vec<String>, String> {
    let body = s.strip_suffix("\r\n").ok_or("text does not end with CRLF")?;
    let mut out: Vec<String> = Vec::new();
    for (i, phys) in body.split("\r\n").enumerate() {
        if phys.contains(['\r', '\n']) {
            return Err(format!("bare CR or LF in physical line {i}: {phys:?}"));
        }
        if let Some(rest) = phys.strip_prefix([' ', '\t']) {
            let Some(last) = out.last_mut() else {
                return Err("text starts with a continuation line".into());
            };
            if rest.len() > 75 {
                return Err(format!("continuation line {i} carries {} octets: {phys:?}", rest.len()));
            }
            last.push_str(rest);
        } else {
            if phys.len() > 75 {
                return Err(format!("physical line {i} has {} octets: {phys:?}", phys.len()));
            }
            if phys.is_empty() {
                return Err(format!("empty physical line {i}"));
            }
            out.push(phys.to_string());
        }
    }
    Ok(out)
}

fn is_name(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '-' || c == '/'
}

pub fn line(l: &str) -> Result<RLine, String> {
    let bad = |why: &str| format!("{why} in content line {l:?}");
    let end = l.find(|c| !is_name(c)).ok_or_else(|| bad("no colon"))?;
    if end == 0 {
        return Err(bad("empty name"));
    }
    let name = l[..end].to_string();
    let mut rest = &l[end..];
    let mut params = Vec::new();
    while let Some(r) = rest.strip_prefix(';') {
        let eq = r.find(|c| !is_name(c)).ok_or_else(|| bad("unfinished parameter"))?;
        if eq == 0 {
            return Err(bad("empty parameter name"));
        }
        let pname = r[..eq].to_string();
        let r = r[eq..].strip_prefix('=').ok_or_else(|| bad("parameter without ="))?;
        let (val, r) = if let Some(q) = r.strip_prefix('"') {
            let e = q.find('"').ok_or_else(|| bad("unbalanced quote"))?;
            (q[..e].to_string(), &q[e + 1..])
        } else {
            let e = r.find([';', ':']).ok_or_else(|| bad("no colon"))?;
            if r[..e].contains(['"', ',']) {
                return Err(bad("unquoted parameter value with a quote or comma"));
            }
            (r[..e].to_string(), &r[e..])
        };
        params.push((pname, val));
        rest = r;
    }
    let value = rest.strip_prefix(':').ok_or_else(|| bad("no colon after name and parameters"))?;
    Ok(RLine { name, params, value: value.to_string() })
}

/// Reads text holding exactly one component.
pub fn tree(s: &str) -> Result<RNode, String> {
    let lines = physical(s)?;
    let mut stack: Vec<RNode> = Vec::new();
    let mut done: Option<RNode> = None;
    for raw in &lines {
        if done.is_some() {
            return Err(format!("content after the end of the component: {raw:?}"));
        }
        let l = line(raw)?;
        if l.name == "BEGIN" {
            if !l.params.is_empty() {
                return Err(format!("BEGIN with parameters: {raw:?}"));
            }
            stack.push(RNode { name: l.value, lines: Vec::new(), kids: Vec::new() });
        } else if l.name == "END" {
            let node = stack.pop().ok_or_else(|| format!("END without BEGIN: {raw:?}"))?;
            if node.name != l.value || !l.params.is_empty() {
                return Err(format!("BEGIN:{} closed by {raw:?}", node.name));
            }
            match stack.last_mut() {
                Some(parent) => parent.kids.push(node),
                None => done = Some(node),
            }
        } else {
            let node = stack.last_mut().ok_or_else(|| format!("line outside any component: {raw:?}"))?;
            if !node.kids.is_empty() {
                return Err(format!("property {raw:?} after a sub-component of {}", node.name));
            }
            node.lines.push(l);
        }
    }
    done.ok_or_else(|| "component never closed".to_string())
}

/// Semantic text behind an RFC 5545 escaped TEXT; Err if it is not in escaped form.
pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some(c @ ('\\' | ';' | ',')) => out.push(c),
                Some('n' | 'N') => out.push('\n'),
                other => return Err(format!("backslash before {other:?} in {s:?}")),
            },
            ';' | ',' => return Err(format!("unescaped {c:?} in {s:?}")),
            _ => out.push(c),
        }
    }
    Ok(out)
}

/// Splits at separators not preceded by an (odd) backslash.
pub fn split_unescaped(s: &str, sep: char) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut esc = false;
    for c in s.chars() {
        if c == sep && !esc {
            out.push(String::new());
            continue;
        }
        esc = c == '\\' && !esc;
        out.last_mut().unwrap().push(c);
    }
    out
}

pub fn param_map(l: &RLine) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for (k, v) in &l.params {
        if m.insert(k.clone(), v.clone()).is_some() {
            return Err(format!("parameter {k} twice in {l:?}"));
        }
    }
    Ok(m)
}

//! Stand-in for failure_derive: `#[derive(Fail)]` for types whose generics are
//! plain lifetimes, types and const parameters.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Fail, attributes(fail, cause))]
pub fn derive_fail(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut name = String::new();
    let mut params: Vec<String> = vec![];
    let mut names: Vec<String> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            let s = id.to_string();
            if s == "struct" || s == "enum" {
                name = toks[i + 1].to_string();
                let mut j = i + 2;
                if j < toks.len() && toks[j].to_string() == "<" {
                    let (mut depth, mut cur) = (1, vec![]);
                    j += 1;
                    while depth > 0 {
                        let t = toks[j].to_string();
                        if t == "<" { depth += 1 }
                        if t == ">" { depth -= 1 }
                        if depth == 0 || (depth == 1 && t == ",") {
                            if !cur.is_empty() { params.push(cur.join(" ")); }
                            cur = vec![];
                        } else {
                            cur.push(t);
                        }
                        j += 1;
                    }
                }
                break;
            }
        }
        i += 1;
    }
    for p in params.iter() {
        let head = p.split(|c| c == ':' || c == '=').next().unwrap().trim().to_string();
        names.push(if head.starts_with("const ") { head[6..].trim().to_string() } else { head });
    }
    let (g, a) = if params.is_empty() { (String::new(), String::new()) } else {
        (format!("<{}>", params.join(", ")), format!("<{}>", names.join(", ")))
    };
    format!(
        "impl{g} ::failure::Fail for {n}{a} {{}}
         impl{g} ::std::fmt::Display for {n}{a} {{
             fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {{ f.write_str(\"{n}\") }}
         }}", n = name, g = g, a = a).parse().unwrap()
}

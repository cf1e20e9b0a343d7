//! Stand-in for clap's derive macros.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
use syn::{Attribute, Data, DeriveInput, Expr, Field, Fields, Ident, Token, Type, parse_macro_input};

/// `name`, `name = expr`, `name(expr)` of the #[arg]/#[command]/#[clap]/#[value] attributes.
struct Item {
    name: String,
    value: Option<Expr>,
}
impl syn::parse::Parse for Item {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let name: Ident = input.call(syn::ext::IdentExt::parse_any)?;
        let value = if input.peek(Token![=]) {
            input.parse::<Token![=]>()?;
            Some(input.parse()?)
        } else if input.peek(syn::token::Paren) {
            let inner;
            syn::parenthesized!(inner in input);
            if inner.is_empty() { None } else { Some(inner.parse()?) }
        } else {
            None
        };
        Ok(Item { name: name.to_string(), value })
    }
}
fn items(attrs: &[Attribute]) -> Vec<Item> {
    attrs
        .iter()
        .filter(|a| ["arg", "command", "clap", "value", "group"].iter().any(|n| a.path().is_ident(n)))
        .flat_map(|a| {
            a.parse_args_with(syn::punctuated::Punctuated::<Item, Token![,]>::parse_terminated)
                .expect("attribute")
        })
        .collect()
}
fn doc(attrs: &[Attribute]) -> Option<String> {
    let lines: Vec<String> = attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta.require_name_value().ok()?.value {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => Some(s.value().trim().to_string()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    if lines.is_empty() {
        return None;
    }
    let paras: Vec<String> = lines
        .split(|l| l.is_empty())
        .filter(|p| !p.is_empty())
        .map(|p| p.join(" "))
        .collect();
    let mut text = paras.join("\n\n");
    if paras.len() == 1 && text.ends_with('.') && !text.ends_with("..") {
        text.pop();
    }
    Some(text)
}
fn has<'a>(items: &'a [Item], n: &str) -> Option<&'a Item> {
    items.iter().find(|i| i.name == n)
}
fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() && i > 0 && !o.ends_with('-') {
            o.push('-');
        }
        o.push(if c == '_' { '-' } else { c.to_ascii_lowercase() });
    }
    o
}
fn inner<'a>(t: &'a Type, name: &str) -> Option<&'a Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != name {
        return None;
    }
    match &s.arguments {
        syn::PathArguments::AngleBracketed(a) => match a.args.first()? {
            syn::GenericArgument::Type(t) => Some(t),
            _ => None,
        },
        _ => None,
    }
}
fn on(item: Option<&Item>) -> T2 {
    match item {
        None => quote!(false),
        Some(Item { value: None, .. }) => quote!(true),
        Some(Item { value: Some(v), .. }) => quote!(#v),
    }
}
fn named(data: &Data) -> Vec<&Field> {
    match data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => n.named.iter().collect(),
            _ => vec![],
        },
        _ => vec![],
    }
}
/// The code that adds the arguments to `cmd`, and the code that builds Self from `m`.
fn args_impl(input: &DeriveInput) -> (T2, T2) {
    let mut add = vec![];
    let mut build = vec![];
    let heading = match has(&items(&input.attrs), "next_help_heading") {
        Some(Item { value: Some(v), .. }) => quote!(Some(String::from(#v))),
        _ => quote!(None),
    };
    for f in named(&input.data) {
        let id = f.ident.clone().unwrap();
        let name = id.to_string();
        let it = items(&f.attrs);
        let ty = &f.ty;
        if has(&it, "subcommand").is_some() {
            match inner(ty, "Option") {
                Some(t) => {
                    add.push(quote!(<#t as ::clap::Subcommand>::add(cmd); ));
                    build.push(quote!(#id: m.sub.as_ref().map(|(n, s)| <#t as ::clap::Subcommand>::from(n, s)),));
                }
                None => {
                    add.push(quote!(<#ty as ::clap::Subcommand>::add(cmd); cmd.subcommand_required = true;));
                    build.push(quote!(#id: { let (n, s) = m.sub.as_ref().expect("a subcommand"); <#ty as ::clap::Subcommand>::from(n, s) },));
                }
            }
            continue;
        }
        if has(&it, "flatten").is_some() {
            add.push(quote!(<#ty as ::clap::Args>::add(cmd);));
            build.push(quote!(#id: <#ty as ::clap::Args>::from(m),));
            continue;
        }
        if has(&it, "skip").is_some() {
            build.push(quote!(#id: Default::default(),));
            continue;
        }
        let (kind, vt) = if matches!(ty, Type::Path(p) if p.path.is_ident("bool")) {
            ("flag", ty)
        } else if let Some(t) = inner(ty, "Option") {
            ("option", t)
        } else if let Some(t) = inner(ty, "Vec") {
            ("vec", t)
        } else {
            ("single", ty)
        };
        let opt_str = |n: &str| match has(&it, n) {
            Some(Item { value: Some(v), .. }) => quote!(Some((#v).to_string())),
            _ => quote!(None),
        };
        let long = match has(&it, "long") {
            Some(Item { value: Some(v), .. }) => quote!(Some((#v).to_string())),
            Some(_) => {
                let k = kebab(&name);
                quote!(Some(#k.to_string()))
            }
            None => quote!(None),
        };
        let short = match has(&it, "short") {
            Some(Item { value: Some(v), .. }) => quote!(Some(#v)),
            Some(_) => {
                let c = name.chars().next().unwrap();
                quote!(Some(#c))
            }
            None => quote!(None),
        };
        let help = match (has(&it, "help"), doc(&f.attrs)) {
            (Some(Item { value: Some(v), .. }), _) => quote!(Some((#v).to_string())),
            (_, Some(d)) => quote!(Some(#d.to_string())),
            _ => quote!(None),
        };
        let default = match (has(&it, "default_value"), has(&it, "default_value_t")) {
            (Some(Item { value: Some(v), .. }), _) => quote!(Some((#v).to_string())),
            (_, Some(Item { value: Some(v), .. })) => {
                quote!(Some(::clap::infer::Infer::<#vt>::show(&(#v))))
            }
            (_, Some(_)) => quote!(Some(::clap::infer::Infer::<#vt>::show(&<#vt as Default>::default()))),
            _ => quote!(None),
        };
        let missing = opt_str("default_missing_value");
        let value_name = match has(&it, "value_name") {
            Some(Item { value: Some(v), .. }) => quote!((#v).to_string()),
            _ => {
                let u = name.to_uppercase();
                quote!(#u.to_string())
            }
        };
        let num_args = match has(&it, "num_args") {
            Some(Item { value: Some(v), .. }) => quote!(Some(::clap::ValueRange::from(#v))),
            _ => quote!(None),
        };
        let require_equals = on(has(&it, "require_equals"));
        let global = on(has(&it, "global"));
        let hide = on(has(&it, "hide"));
        let required = match has(&it, "required") {
            Some(i) => on(Some(i)),
            None => {
                let r = kind == "single" && has(&it, "default_value").is_none() && has(&it, "default_value_t").is_none();
                quote!(#r)
            }
        };
        add.push(quote! {
            cmd.arg(::clap::ArgDef {
                id: #name.to_string(), long: #long, short: #short, help: #help, default: #default,
                missing: #missing, value_name: #value_name, num_args: #num_args,
                require_equals: #require_equals, global: #global, hide: #hide, required: #required,
                kind: #kind, heading: #heading,
                possible: { use ::clap::infer::*; (&&Infer::<#vt>::new()).possible() },
                check: { fn check(s: &str) -> Result<(), String> {
                    use ::clap::infer::*; (&&Infer::<#vt>::new()).parse(s).map(drop)
                } check },
            });
        });
        let parse = quote!({ use ::clap::infer::*; |s: &String| (&&Infer::<#vt>::new()).parse(s).expect("checked") });
        build.push(match kind {
            "flag" => quote!(#id: m.flag(#name),),
            "option" => quote!(#id: m.values(#name).first().map(#parse),),
            "vec" => quote!(#id: m.values(#name).iter().map(#parse).collect(),),
            _ => quote!(#id: m.values(#name).first().map(#parse).expect("a value"),),
        });
    }
    (quote!(#(#add)*), quote!(Self { #(#build)* }))
}
fn command_impl(input: &DeriveInput) -> T2 {
    let it = items(&input.attrs);
    let mut out = vec![];
    if let Some(d) = doc(&input.attrs) {
        out.push(quote!(cmd.about = Some(#d.to_string());));
    }
    for i in &it {
        let v = &i.value;
        out.push(match (i.name.as_str(), v) {
            ("name", Some(v)) => quote!(cmd.name = (#v).to_string();),
            ("about", Some(v)) => quote!(cmd.about = Some((#v).to_string());),
            ("after_help", Some(v)) => quote!(cmd.after_help = Some((#v).to_string());),
            ("version", Some(v)) => quote!(cmd.version = Some((#v).to_string());),
            ("version", None) => quote!(cmd.version = Some(env!("CARGO_PKG_VERSION").to_string());),
            ("arg_required_else_help", None) => quote!(cmd.required_else_help = true;),
            ("arg_required_else_help", Some(v)) => quote!(cmd.required_else_help = #v;),
            ("styles", Some(v)) => quote!(let _ = #v;),
            _ => quote!(),
        });
    }
    quote!(#(#out)*)
}
#[proc_macro_derive(Parser, attributes(arg, command, clap, group))]
pub fn parser(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (add, build) = args_impl(&input);
    let cmd = command_impl(&input);
    quote! {
        impl ::clap::Args for #n {
            fn add(cmd: &mut ::clap::Command) { #add }
            fn from(m: &::clap::ArgMatches) -> Self { let _ = m; #build }
        }
        impl ::clap::Parser for #n {}
        impl ::clap::CommandFactory for #n {
            fn describe(cmd: &mut ::clap::Command) { #cmd <Self as ::clap::Args>::add(cmd); }
        }
    }
    .into()
}
#[proc_macro_derive(Args, attributes(arg, command, clap, group))]
pub fn args(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let (add, build) = args_impl(&input);
    let cmd = command_impl(&DeriveInput { attrs: items_only(&input.attrs), ..input.clone() });
    quote! {
        impl ::clap::Args for #n {
            fn add(cmd: &mut ::clap::Command) { #add }
            fn from(m: &::clap::ArgMatches) -> Self { let _ = m; #build }
        }
        impl ::clap::CommandFactory for #n {
            fn describe(cmd: &mut ::clap::Command) { #cmd <Self as ::clap::Args>::add(cmd); }
        }
    }
    .into()
}
fn items_only(attrs: &[Attribute]) -> Vec<Attribute> {
    attrs.iter().filter(|a| !a.path().is_ident("doc")).cloned().collect()
}
#[proc_macro_derive(Subcommand, attributes(arg, command, clap))]
pub fn subcommand(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("an enum") };
    let mut add = vec![];
    let mut from = vec![];
    for v in &e.variants {
        let id = &v.ident;
        let mut name = kebab(&id.to_string());
        let it = items(&v.attrs);
        if let Some(Item { value: Some(Expr::Lit(l)), .. }) = has(&it, "name")
            && let syn::Lit::Str(s) = &l.lit
        {
            name = s.value();
        }
        let about = match (has(&it, "about"), doc(&v.attrs)) {
            (Some(Item { value: Some(a), .. }), _) => quote!(c.about = Some((#a).to_string());),
            (_, Some(d)) => quote!(c.about = Some(#d.to_string());),
            _ => quote!(),
        };
        match &v.fields {
            Fields::Unnamed(u) => {
                let t = &u.unnamed.first().unwrap().ty;
                add.push(quote!({ let mut c = ::clap::Command::new(#name); <#t as ::clap::CommandFactory>::describe(&mut c); c.name = #name.to_string(); #about cmd.subcommand(c); }));
                from.push(quote!(#name => Self::#id(<#t as ::clap::Args>::from(m)),));
            }
            _ => {
                add.push(quote!({ let mut c = ::clap::Command::new(#name); #about cmd.subcommand(c); }));
                from.push(quote!(#name => Self::#id,));
            }
        }
    }
    quote! {
        impl ::clap::Subcommand for #n {
            fn add(cmd: &mut ::clap::Command) { #(#add)* }
            fn from(name: &str, m: &::clap::ArgMatches) -> Self {
                let _ = m;
                match name { #(#from)* _ => unreachable!() }
            }
        }
    }
    .into()
}
#[proc_macro_derive(ValueEnum, attributes(value, clap))]
pub fn value_enum(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let n = &input.ident;
    let Data::Enum(e) = &input.data else { panic!("an enum") };
    let mut ids = vec![];
    let mut names = vec![];
    let mut helps = vec![];
    for v in &e.variants {
        let it = items(&v.attrs);
        if has(&it, "skip").is_some() {
            continue;
        }
        let k = kebab(&v.ident.to_string());
        ids.push(&v.ident);
        names.push(match has(&it, "name") {
            Some(Item { value: Some(v), .. }) => quote!(#v),
            _ => quote!(#k),
        });
        helps.push(match doc(&v.attrs) {
            Some(d) => quote!(Some(#d)),
            None => quote!(None),
        });
    }
    quote! {
        impl ::clap::ValueEnum for #n {
            fn value_variants<'a>() -> &'a [Self] { &[#(Self::#ids),*] }
            fn to_possible_value(&self) -> Option<::clap::builder::PossibleValue> {
                Some(match self { #(Self::#ids => ::clap::builder::PossibleValue::with(#names, #helps)),* })
            }
        }
    }
    .into()
}

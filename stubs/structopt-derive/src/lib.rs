//! The derive of the structopt stand-in: named options of a struct, each with `short`, `long` and
//! `default_value`, read by FromStr. Plain, Option and bool fields are known.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, LitStr, Type};

fn outer(t: &Type) -> (String, Option<Type>) {
    if let Type::Path(p) = t {
        let last = p.path.segments.last().unwrap();
        let inner = match &last.arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None }),
            _ => None,
        };
        return (last.ident.to_string(), inner);
    }
    (String::new(), None)
}

#[proc_macro_derive(StructOpt, attributes(structopt))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(data) = &input.data else { panic!("only structs are supported") };
    let Fields::Named(fields) = &data.fields else { panic!("only named fields are supported") };
    let (mut specs, mut values) = (vec![], vec![]);
    for (i, f) in fields.named.iter().enumerate() {
        let id = f.ident.as_ref().unwrap();
        let kebab = id.to_string().replace('_', "-");
        let (mut short, mut long, mut default) = (String::new(), String::new(), None);
        for a in f.attrs.iter().filter(|a| a.path().is_ident("structopt")) {
            a.parse_nested_meta(|m| {
                let value = match m.value() {
                    Ok(v) => Some(v.parse::<syn::Lit>()?),
                    Err(_) => None,
                };
                let text = value.map(|l| match l {
                    syn::Lit::Str(s) => s.value(),
                    syn::Lit::Char(c) => c.value().to_string(),
                    _ => panic!("unknown literal"),
                });
                if m.path.is_ident("short") {
                    short = text.unwrap_or_else(|| kebab[..1].to_string()).trim_start_matches('-').to_string();
                } else if m.path.is_ident("long") {
                    long = text.unwrap_or_else(|| kebab.clone()).trim_start_matches('-').to_string();
                } else if m.path.is_ident("default_value") {
                    default = text;
                } else if !["name", "help", "about", "long_help", "env", "value_name"].iter().any(|x| m.path.is_ident(x)) {
                    panic!("the stand-in for structopt does not know this attribute");
                }
                Ok(())
            })
            .unwrap();
        }
        let (ty, inner) = outer(&f.ty);
        let flag = ty == "bool";
        let default = match default {
            Some(d) => {
                let d = LitStr::new(&d, id.span());
                quote!(Some(#d))
            }
            None => quote!(None),
        };
        specs.push(quote!(::structopt::Spec { short: #short, long: #long, flag: #flag, default: #default }));
        values.push(match (ty.as_str(), inner) {
            ("bool", _) => quote!(#id: found[#i].is_some()),
            ("Option", Some(t)) => quote!(#id: found[#i].as_deref().map(|s| ::structopt::parse::<#t>(s, &specs[#i]))),
            _ => {
                let t = &f.ty;
                quote!(#id: ::structopt::parse::<#t>(&::structopt::required(&found[#i], &specs[#i]), &specs[#i]))
            }
        });
    }
    quote! {
        impl ::structopt::StructOpt for #name {
            fn from_iter<I>(iter: I) -> Self
            where
                I: ::std::iter::IntoIterator,
                I::Item: ::std::convert::Into<::std::ffi::OsString> + ::std::clone::Clone,
            {
                let specs = [#(#specs),*];
                let found = ::structopt::scan(iter.into_iter().map(|x| x.into()), &specs);
                #name { #(#values),* }
            }
        }
    }
    .into()
}

from seedlib import mk
G="generator/src/typed/generator.rs"
O="generator/src/typed/output.rs"
mk("P18-literals-share-wrapper","C13","a grammar with a case-insensitive literal followed by a case-sensitive one that differs only in case",
   "the later literal is matched with the spelling of the earlier one",
   [(O,"if let Some(index) = self.wrapper_counter.get(string) {","""if let Some(index) = self
            .wrapper_counter
            .iter()
            .find(|(known, _)| match string.len() {
                0 | 1 => **known == string,
                // One constant serves both kinds of literals.
                _ => known.eq_ignore_ascii_case(string),
            })
            .map(|(_, index)| index)
        {""")],
   {"src/main.rs":'''
mod g {
    #[derive(pest3::Parser)]
    #[grammar_inline = "kw = i\\"SELECT\\" - \\"x\\" - \\"select\\""]
    pub struct P;
}
use pest3::typed::TypedNode;
fn main() {
    assert!(g::rules::kw::check("SeLeCtxselect").is_ok());
    assert!(g::rules::kw::check("SELECTxSELECT").is_err());
}
'''})
mk("P19-trivia-carried-on","C13","a sequence of at least three elements in which - follows ~ or ^",
   "the trivia of an earlier operator is also allowed (or required) between elements joined by -",
   [(G,'''        res.push((trivia, &left.expr));
        trivia = next_trivia.clone();
''','''        res.push((trivia.clone(), &left.expr));
        if !matches!(next_trivia, Trivia::None) {
            trivia = next_trivia.clone();
        }
''')],
   {"src/main.rs":'''
mod g {
    #[derive(pest3::Parser)]
    #[grammar_inline = "~ = \\" \\"*\\nseq = \\"a\\" ~ \\"b\\" - \\"c\\""]
    pub struct P;
}
use pest3::typed::TypedNode;
fn main() {
    assert!(g::rules::seq::check("a  bc").is_ok());
    assert!(g::rules::seq::check("a b c").is_err());
}
'''})
mk("P20-imported-silent-rule-shows","C14","a silent rule of a module imported by an imported module that calls other rules, with the pairs asked for through the importing module",
   "pairs inside an imported silent rule appear in the pairs of the importing grammar",
   [(G,'''                    let rule = get_rule(n);
                    quote! {
                        #[allow(non_camel_case_types)]
                        impl<'i, #(#args, )*> #this::typed::PairContainer<#rule> for #name<'i, #(#args, )*> {
                            fn for_each_child_pair(&self, _f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) {}
                            fn for_self_or_for_each_child_pair(&self, _f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) {}
                        }
                    }''','''                    let rule = get_rule(n);
                    // Seen from a super module the rule is only a part of its caller.
                    let body = match n {
                        0 | 1 => quote! {},
                        _ => quote! {self.content.for_self_or_for_each_child_pair(_f)},
                    };
                    quote! {
                        #[allow(non_camel_case_types)]
                        impl<'i, #(#args: #this::typed::PairContainer<#rule>, )*> #this::typed::PairContainer<#rule> for #name<'i, #(#args, )*> {
                            fn for_each_child_pair(&self, _f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) { #body }
                            fn for_self_or_for_each_child_pair(&self, _f: &mut impl #this::std::FnMut(#this::token::Pair<#rule>)) { #body }
                        }
                    }''')],
   {"n.pest":'''part = _{ inner - ";" }
inner = "x"
''',"m.pest":"use n\nq = \"q\"\n","root.pest":'''use m
top = m::n::part - m::n::inner
''',"src/main.rs":'''
mod g {
    #[derive(pest3::Parser)]
    #[grammar = "root.pest"]
    pub struct P;
}
use pest3::typed::{PairTree, TypedNode};
fn main() {
    let t = g::rules::top::try_parse("x;x").unwrap();
    let p = t.as_pair_tree();
    assert_eq!(p.children.len(), 1, "{p}");
}
'''})
mk("P21-choice-accessors-reversed","C14","a rule that occurs in two alternatives of one choice, the later one the fourth or further, read through its accessor",
   "the accessor lists the late alternative first",
   [(G,"getter = getter.join(child.getter.choice(i));","""getter = if i > 2 {
                    child.getter.choice(i).join(getter)
                } else {
                    getter.join(child.getter.choice(i))
                };""")],
   {"src/main.rs":'''
mod g {
    #[derive(pest3::Parser)]
    #[grammar_inline = "x = '0'..'9'\\ntop = x - \\"a\\" | \\"b\\" | \\"c\\" | \\"-\\" - x"]
    pub struct P;
}
use pest3::typed::TypedNode;
fn main() {
    let t = g::rules::top::try_parse("-3").unwrap();
    let (a, b) = t.x();
    assert!(a.is_none());
    assert_eq!(b.unwrap().span.as_str(), "3");
}
'''})
mk("P22-insensitive-capitals","C13","a case-insensitive literal without lower-case letters",
   "it only matches its own spelling",
   [(G,'''            let typename = quote! {#root::#generics::Insens::<'i, #root::#wrapper>};
''','''            // Nothing to fold: an exact match does.
            let typename = if content.contains(|c: char| c.is_ascii_lowercase()) {
                quote! {#root::#generics::Insens::<'i, #root::#wrapper>}
            } else {
                quote! {#root::#generics::Str::<#root::#wrapper>}
            };
''')],
   {"src/main.rs":'''
mod g {
    #[derive(pest3::Parser)]
    #[grammar_inline = "kw = i\\"OR 1\\""]
    pub struct P;
}
use pest3::typed::TypedNode;
fn main() {
    assert!(g::rules::kw::check("OR 1").is_ok());
    assert!(g::rules::kw::check("or 1").is_ok());
}
'''})

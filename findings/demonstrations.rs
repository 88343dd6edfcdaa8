use typelalr::{*, lex::{lex::*,dfa::*,nfa::*}, lalr::*, parser::Grammar};
use bumpalo::Bump; use regex_syntax::Parser;
fn td(n:&str,r:&str,i:u32)->(TokenDef,regex_syntax::hir::Hir){(TokenDef{name:n.into(),with_val:true,token_idx:Some(i)},Parser::new().parse(r).unwrap())}
fn gen(g:&str)->(String,String){let b=Bump::new();let a=parse_grammar(&b,g);let gr=Grammar::grammar_from_ast_productions(&b,&a);let l=Lalr::new(gr);codegen::parse_gen::generate(&b,&a,&l).unwrap()}
fn parse(g:&str,i:&str){let b=Bump::new();let a=parse_grammar(&b,g);let gr=Grammar::grammar_from_ast_productions(&b,&a);Lalr::new(gr).parse(i);}
#[test] fn f1(){ assert!(!gen(r#"export start S: () = [
 <a: r"[0-9]+"> => (a)
 ]
"#).1.contains("extendsstring")); }
#[test] fn f2(){ let s=gen(r#"export start S: () = [
 <a: "x"> <b: T> => (a)
 ]
 export T: () = [
 "y" => (1)
 ]
"#).1; let i=s.find("not a token (pos").unwrap(); let j=s.find("invalid symbol (pos `2`").unwrap(); assert!(j<i); }
#[test] fn f3(){ parse(r#"export start S: () = [
 "a" "b" => (1),
 "a" "c" => (2)
 ]
"#,"a c"); }
#[test] fn f4() { for i in ["1 x y p","2 x y q","3 w y v"] { parse(r#"export start S: () = [
"1" <x: A> "p" => (1),
"2" <x: A> "q" => (2),
"3" "w" <x: B> "v" => (3)
]
export A: () = [
"x" <b: B> => (1)
]
export B: () = [
"y" => (1)
]"#,i);} }
#[test] fn f5(){ parse(r#"export start S: () = [
<t: T> <e: E> => (1)
]
export E: () = [
 <l: E> "+" <rr: T> => (1),
 <t: T> => (t)
 ]
 export T: () = [
 "n" => (1)
 ]
"#,"n n + n + n"); }
#[test] fn f6(){ let l=Lex::from_tokens(vec![td("s","\"[^\"]*\"",1),td("b","b",2)]); let t=l.lex("\"é\" b"); println!("{:?}",t); assert_eq!(t[1],Token::new_with_val("b".into(),"b")); assert_eq!(t[0],Token::new_with_val("s".into(),"\"é\"")); }
#[test] fn f7(){ let d=|r:&str| DFA::from_nfa(NFA::from_regex(&Parser::new().parse(r).unwrap())); assert!(!d("ab").test("a")); assert!(d("a*").test("")); assert!(d("é").test("é")); }
#[test] fn f8(){ let l=Lex::from_tokens(vec![td("1","[c-l]2",1),td("2","[c-z]3",2),td("3","[f-h]1",3),td("4","[f-v]4",4)]); for (s,n) in [("g1","3"),("g2","1"),("g3","2"),("g4","4"),("k4","4"),("v4","4")] { let t=l.lex(s); assert_eq!(t,vec![Token::new_with_val(n.into(),s)]); } }
#[test] fn f9(){ let l=Lex::from_tokens(vec![td("a","a",1),td("abc","abc",2),td("b","b",3)]); assert_eq!(l.lex("ab").len(),2); assert_eq!(l.lex("abab").len(),4);}
#[test] fn f10(){ let s=gen(r#"export start S: () = [
 <a: "'"> "\"" "\\" => (a)
 ]
"#); println!("{}{}",s.0,s.1); assert!(s.1.contains(r#"'\'': "#)); assert!(s.0.contains(r#"kind: "\"""#)); assert!(s.1.contains(r#"value: "\\""#)); }
#[test] fn f11(){ for (r,s) in [("a|",""),("(a|)b","b"),("(a|)b","ab"),("()*a","a"),("a()b","ab")] { let h=Parser::new().parse(r).unwrap(); assert!(NFA::from_regex(&h).simulate(s)); } }
#[test] fn f12(){ parse(r#"export start S: () = [
 "\"" "\\" => (1)
 ]
"#,"\" \\"); }
#[test] fn f16(){ use parser::ast::*; let x=Ident("x"); let y=Ident("y"); assert!(InputSymbol::NonTerminal(x)<InputSymbol::NonTerminal(y)); assert_eq!(InputSymbol::Epsilon.cmp(&InputSymbol::Epsilon),std::cmp::Ordering::Equal); }

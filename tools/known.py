import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()
def h(sub): return next(l.split()[0] for l in log if sub in l)
f=[("C05","a push node lists","push<T>::vec_children_pairs returned the children of the pushed rule and dropped the rule's own pair"),
("C10","raw string literals","r#\"x\"# was loaded as the text of a pound or quote instead of x"),
("C09","an error in an imported grammar","a syntax error in an imported file panicked inside parse() instead of being returned"),
("C11","a module lists imports","an imported grammar whose import was already loaded did not list it as a dependency"),
("C10","an imported file is loaded once","one file imported under two spellings of its path was read twice, and importers could see two versions"),
("C10","a cyclic import","two files importing each other (or one importing itself) recursed until the stack overflowed"),
("C09","a double quote is","'\"'..'~' panicked: the quote was dropped when the literal was unescaped"),
("C09","arguments in an import","use a[..] panicked with todo!() instead of returning an error"),
("C09","a root grammar that cannot be examined","when the metadata of the root grammar could not be read, the derive silently used the file of that name in src/"),
("C08","a span of an empty input","rendering Span::new(\"\", 0, 0) panicked"),
("C13","an argument is replaced in every","a silent rule with arguments that passes its parameter on in two arguments of a call kept the second one, so the derive did not compile"),
("C13","silent rules with arguments are inlined","a call of a silent rule with arguments was inlined by its last name only, not inside arguments of other calls, with arguments captured by one another, or never ended: generated code did not compile, matched something else or the derive overflowed its stack"),
("C13","an imported built-in rule can be renamed","use pest::any as x generated code that does not compile"),
("C13","a rule can be named Option","a grammar with a rule named Option generated code that does not compile"),
("C15","a rule or trivia that is defined twice","trivia defined twice in one module was accepted and the first definition silently dropped; so was a silent rule with arguments defined twice"),
("C15","an argument of a rule that is called","an argument of a rule called with arguments or a slice was accepted and these silently dropped"),
("C15","a name in an inlined silent rule","a name in the body of an inlined silent rule was taken for an argument of the calling rule: an undefined name was accepted, or another rule silently replaced"),
("C13","a module can be named like a Rust keyword","an import named like a Rust keyword generated code that does not compile"),
("C09","reading nested parentheses","a rule with some twenty-five nested parentheses took minutes to load, and twice as long with each further one"),
("C13","an argument called like an import","a rule whose argument is called like an import that the rule uses (`f(m) = m - m::a`) generated code that does not compile"),
("C13","the name of the module of rules","#[rules_mod] with an imported grammar generated code that does not compile"),
]
json.dump({"findings":[],"fixed":[f"fixed: property={p} {h(s)} {w}" for p,s,w in f]},open('/verif/known-findings.json','w'),indent=1)

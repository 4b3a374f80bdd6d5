"",
"#",
"<",
"<*",
"<+",
"</",
"</*",
"</a",
"<?",
"<a",
"<a ",
"<a @",
"<a @i",
"<a @in",
"<a @inn",
"<a @inne",
"<a @inner",
"<a @inner-",
"<a @inner-h",
"<a @inner-ht",
"<a @inner-htm",
"<a @inner-html",
"<a @s",
"<a @st",
"<a @str",
"<a @stri",
"<a @strip",
"<a @strip-",
"<a @strip-t",
"<a @strip-ta",
"<a @strip-tag",
"<a @strip-tags",
"<a @t",
"<a @te",
"<a @tex",
"<a @text",
"<a @text$",
"<a @text$=",
"<a @text$=\"",
"<a @text$=\"\"",
"<a @text$=\"\\",
"<a @text$=\"a",
"<a @text$='",
"<a @text$='\\",
"<a @text$='a",
"<a @text*",
"<a @text*=",
"<a @text*=\"",
"<a @text*=\"\"",
"<a @text*=\"\\",
"<a @text*=\"a",
"<a @text*='",
"<a @text*='\\",
"<a @text*='a",
"<a @text:",
"<a @text:\"",
"<a @text:\"\"",
"<a @text:\"\\",
"<a @text:\"a",
"<a @text:'",
"<a @text:'\\",
"<a @text:'a",
"<a @text:a",
"<a @text:ap",
"<a @text:app",
"<a @text:appe",
"<a @text:appen",
"<a @text:append",
"<a @text:append(",
"<a @text:append(\"",
"<a @text:append(\"\"",
"<a @text:append(\"\")",
"<a @text:append(\"\\",
"<a @text:append(\"a",
"<a @text:append('",
"<a @text:append('\\",
"<a @text:append('a",
"<a @text:b",
"<a @text:c",
"<a @text:co",
"<a @text:col",
"<a @text:coll",
"<a @text:colla",
"<a @text:collap",
"<a @text:collaps",
"<a @text:collapse",
"<a @text:collapsew",
"<a @text:collapsews",
"<a @text:f",
"<a @text:fi",
"<a @text:fil",
"<a @text:filt",
"<a @text:filte",
"<a @text:filter",
"<a @text:filter(",
"<a @text:filter(\"",
"<a @text:filter(\"\\",
"<a @text:filter(\"a",
"<a @text:filter('",
"<a @text:filter('\\",
"<a @text:filter('a",
"<a @text:filter(/",
"<a @text:filter(//",
"<a @text:filter(//)",
"<a @text:filter(//c",
"<a @text:filter(//i",
"<a @text:filter(/\\",
"<a @text:filter(/a",
"<a @text:p",
"<a @text:pr",
"<a @text:pre",
"<a @text:prep",
"<a @text:prepe",
"<a @text:prepen",
"<a @text:prepend",
"<a @text:prepend(",
"<a @text:prepend(\"",
"<a @text:prepend(\"\"",
"<a @text:prepend(\"\")",
"<a @text:prepend(\"\\",
"<a @text:prepend(\"a",
"<a @text:prepend('",
"<a @text:prepend('\\",
"<a @text:prepend('a",
"<a @text:r",
"<a @text:re",
"<a @text:rep",
"<a @text:repl",
"<a @text:repla",
"<a @text:replac",
"<a @text:replace",
"<a @text:replace(",
"<a @text:replace(\"",
"<a @text:replace(\"\\",
"<a @text:replace(\"a",
"<a @text:replace('",
"<a @text:replace('\\",
"<a @text:replace('a",
"<a @text:replace(/",
"<a @text:replace(//",
"<a @text:replace(// ",
"<a @text:replace(//,",
"<a @text:replace(//,\"",
"<a @text:replace(//,\"\"",
"<a @text:replace(//,\"\")",
"<a @text:replace(//,\"\\",
"<a @text:replace(//,\"a",
"<a @text:replace(//,'",
"<a @text:replace(//,'\\",
"<a @text:replace(//,'a",
"<a @text:replace(//c",
"<a @text:replace(//i",
"<a @text:replace(/\\",
"<a @text:replace(/a",
"<a @text:t",
"<a @text:to",
"<a @text:tol",
"<a @text:tolo",
"<a @text:tolow",
"<a @text:tolowe",
"<a @text:tolower",
"<a @text:tou",
"<a @text:toup",
"<a @text:toupp",
"<a @text:touppe",
"<a @text:toupper",
"<a @text:tr",
"<a @text:tri",
"<a @text:trim",
"<a @text:trim(",
"<a @text:trim(\"",
"<a @text:trim(\"\"",
"<a @text:trim(\"\")",
"<a @text:trim(\"\\",
"<a @text:trim(\"a",
"<a @text:trim('",
"<a @text:trim('\\",
"<a @text:trim('a",
"<a @text=",
"<a @text=\"",
"<a @text=\"\"",
"<a @text=\"\"!",
"<a @text=\"\\",
"<a @text=\"a",
"<a @text='",
"<a @text='\\",
"<a @text='a",
"<a @text==",
"<a @text==\"",
"<a @text==\"\"",
"<a @text==\"\\",
"<a @text==\"a",
"<a @text=='",
"<a @text=='\\",
"<a @text=='a",
"<a @text=~",
"<a @text=~\"",
"<a @text=~\"\\",
"<a @text=~\"a",
"<a @text=~'",
"<a @text=~'\\",
"<a @text=~'a",
"<a @text=~/",
"<a @text=~//",
"<a @text=~//!",
"<a @text=~//c",
"<a @text=~//i",
"<a @text=~/\\",
"<a @text=~/a",
"<a @text^",
"<a @text^=",
"<a @text^=\"",
"<a @text^=\"\"",
"<a @text^=\"\\",
"<a @text^=\"a",
"<a @text^='",
"<a @text^='\\",
"<a @text^='a",
"<a a",
"<a a!",
"<a a$",
"<a a$=",
"<a a$=\"",
"<a a$=\"\"",
"<a a$=\"\\",
"<a a$=\"a",
"<a a$='",
"<a a$='\\",
"<a a$='a",
"<a a*",
"<a a*=",
"<a a*=\"",
"<a a*=\"\"",
"<a a*=\"\\",
"<a a*=\"a",
"<a a*='",
"<a a*='\\",
"<a a*='a",
"<a a:",
"<a a:\"",
"<a a:\"\"",
"<a a:\"\\",
"<a a:\"a",
"<a a:'",
"<a a:'\\",
"<a a:'a",
"<a a:a",
"<a a:a?",
"<a a:ap",
"<a a:app",
"<a a:appe",
"<a a:appen",
"<a a:append",
"<a a:append(",
"<a a:append(\"",
"<a a:append(\"\"",
"<a a:append(\"\")",
"<a a:append(\"\\",
"<a a:append(\"a",
"<a a:append('",
"<a a:append('\\",
"<a a:append('a",
"<a a:b",
"<a a:c",
"<a a:co",
"<a a:col",
"<a a:coll",
"<a a:colla",
"<a a:collap",
"<a a:collaps",
"<a a:collapse",
"<a a:collapsew",
"<a a:collapsews",
"<a a:f",
"<a a:fi",
"<a a:fil",
"<a a:filt",
"<a a:filte",
"<a a:filter",
"<a a:filter(",
"<a a:filter(\"",
"<a a:filter(\"\\",
"<a a:filter(\"a",
"<a a:filter('",
"<a a:filter('\\",
"<a a:filter('a",
"<a a:filter(/",
"<a a:filter(//",
"<a a:filter(//)",
"<a a:filter(//c",
"<a a:filter(//i",
"<a a:filter(/\\",
"<a a:filter(/a",
"<a a:p",
"<a a:pr",
"<a a:pre",
"<a a:prep",
"<a a:prepe",
"<a a:prepen",
"<a a:prepend",
"<a a:prepend(",
"<a a:prepend(\"",
"<a a:prepend(\"\"",
"<a a:prepend(\"\")",
"<a a:prepend(\"\\",
"<a a:prepend(\"a",
"<a a:prepend('",
"<a a:prepend('\\",
"<a a:prepend('a",
"<a a:r",
"<a a:re",
"<a a:rep",
"<a a:repl",
"<a a:repla",
"<a a:replac",
"<a a:replace",
"<a a:replace(",
"<a a:replace(\"",
"<a a:replace(\"\\",
"<a a:replace(\"a",
"<a a:replace('",
"<a a:replace('\\",
"<a a:replace('a",
"<a a:replace(/",
"<a a:replace(//",
"<a a:replace(// ",
"<a a:replace(//,",
"<a a:replace(//,\"",
"<a a:replace(//,\"\"",
"<a a:replace(//,\"\")",
"<a a:replace(//,\"\\",
"<a a:replace(//,\"a",
"<a a:replace(//,'",
"<a a:replace(//,'\\",
"<a a:replace(//,'a",
"<a a:replace(//c",
"<a a:replace(//i",
"<a a:replace(/\\",
"<a a:replace(/a",
"<a a:t",
"<a a:to",
"<a a:tol",
"<a a:tolo",
"<a a:tolow",
"<a a:tolowe",
"<a a:tolower",
"<a a:tou",
"<a a:toup",
"<a a:toupp",
"<a a:touppe",
"<a a:toupper",
"<a a:tr",
"<a a:tri",
"<a a:trim",
"<a a:trim(",
"<a a:trim(\"",
"<a a:trim(\"\"",
"<a a:trim(\"\")",
"<a a:trim(\"\\",
"<a a:trim(\"a",
"<a a:trim('",
"<a a:trim('\\",
"<a a:trim('a",
"<a a=",
"<a a=\"",
"<a a=\"\"",
"<a a=\"\"!",
"<a a=\"\\",
"<a a=\"a",
"<a a='",
"<a a='\\",
"<a a='a",
"<a a==",
"<a a==\"",
"<a a==\"\"",
"<a a==\"\\",
"<a a==\"a",
"<a a=='",
"<a a=='\\",
"<a a=='a",
"<a a=~",
"<a a=~\"",
"<a a=~\"\\",
"<a a=~\"a",
"<a a=~'",
"<a a=~'\\",
"<a a=~'a",
"<a a=~/",
"<a a=~//",
"<a a=~//!",
"<a a=~//c",
"<a a=~//i",
"<a a=~/\\",
"<a a=~/a",
"<a a^",
"<a a^=",
"<a a^=\"",
"<a a^=\"\"",
"<a a^=\"\\",
"<a a^=\"a",
"<a a^='",
"<a a^='\\",
"<a a^='a",
"<a/",
"<a/>",
"<a:",
"<a:a",
"<a:at",
"<a:att",
"<a:attr",
"<a:attri",
"<a:attrib",
"<a:attribu",
"<a:attribut",
"<a:attribute",
"<a:attribute-",
"<a:attribute-c",
"<a:attribute-co",
"<a:attribute-cou",
"<a:attribute-coun",
"<a:attribute-count",
"<a:attribute-count(",
"<a:attribute-count(1",
"<a:c",
"<a:ch",
"<a:chi",
"<a:chil",
"<a:child",
"<a:child-",
"<a:child-c",
"<a:child-co",
"<a:child-cou",
"<a:child-coun",
"<a:child-count",
"<a:child-count(",
"<a:child-count(1",
"<a:child-count(1)",
"<a:e",
"<a:em",
"<a:emp",
"<a:empt",
"<a:empty",
"<a:f",
"<a:fi",
"<a:fir",
"<a:firs",
"<a:first",
"<a:first-",
"<a:first-c",
"<a:first-ch",
"<a:first-chi",
"<a:first-chil",
"<a:first-child",
"<a:first-o",
"<a:first-of",
"<a:first-of-",
"<a:first-of-t",
"<a:first-of-ty",
"<a:first-of-typ",
"<a:first-of-type",
"<a:l",
"<a:la",
"<a:las",
"<a:last",
"<a:last-",
"<a:last-c",
"<a:last-ch",
"<a:last-chi",
"<a:last-chil",
"<a:last-child",
"<a:last-o",
"<a:last-of",
"<a:last-of-",
"<a:last-of-t",
"<a:last-of-ty",
"<a:last-of-typ",
"<a:last-of-type",
"<a:n",
"<a:no",
"<a:not",
"<a:not(",
"<a:not(:",
"<a:not(:a",
"<a:not(:at",
"<a:not(:att",
"<a:not(:attr",
"<a:not(:attri",
"<a:not(:attrib",
"<a:not(:attribu",
"<a:not(:attribut",
"<a:not(:attribute",
"<a:not(:attribute-",
"<a:not(:attribute-c",
"<a:not(:attribute-co",
"<a:not(:attribute-cou",
"<a:not(:attribute-coun",
"<a:not(:attribute-count",
"<a:not(:attribute-count(",
"<a:not(:attribute-count(1",
"<a:not(:c",
"<a:not(:ch",
"<a:not(:chi",
"<a:not(:chil",
"<a:not(:child",
"<a:not(:child-",
"<a:not(:child-c",
"<a:not(:child-co",
"<a:not(:child-cou",
"<a:not(:child-coun",
"<a:not(:child-count",
"<a:not(:child-count(",
"<a:not(:child-count(1",
"<a:not(:child-count(1)",
"<a:not(:e",
"<a:not(:em",
"<a:not(:emp",
"<a:not(:empt",
"<a:not(:empty",
"<a:not(:empty)",
"<a:not(:f",
"<a:not(:fi",
"<a:not(:fir",
"<a:not(:firs",
"<a:not(:first",
"<a:not(:first-",
"<a:not(:first-c",
"<a:not(:first-ch",
"<a:not(:first-chi",
"<a:not(:first-chil",
"<a:not(:first-child",
"<a:not(:first-o",
"<a:not(:first-of",
"<a:not(:first-of-",
"<a:not(:first-of-t",
"<a:not(:first-of-ty",
"<a:not(:first-of-typ",
"<a:not(:first-of-type",
"<a:not(:l",
"<a:not(:la",
"<a:not(:las",
"<a:not(:last",
"<a:not(:last-",
"<a:not(:last-c",
"<a:not(:last-ch",
"<a:not(:last-chi",
"<a:not(:last-chil",
"<a:not(:last-child",
"<a:not(:last-o",
"<a:not(:last-of",
"<a:not(:last-of-",
"<a:not(:last-of-t",
"<a:not(:last-of-ty",
"<a:not(:last-of-typ",
"<a:not(:last-of-type",
"<a:not(:n",
"<a:not(:nt",
"<a:not(:nth",
"<a:not(:nth-",
"<a:not(:nth-c",
"<a:not(:nth-ch",
"<a:not(:nth-chi",
"<a:not(:nth-chil",
"<a:not(:nth-child",
"<a:not(:nth-child(",
"<a:not(:nth-child(-",
"<a:not(:nth-child(1",
"<a:not(:nth-child(1)",
"<a:not(:nth-child(1n",
"<a:not(:nth-child(1n+",
"<a:not(:nth-child(1n+1",
"<a:not(:nth-child(e",
"<a:not(:nth-child(ev",
"<a:not(:nth-child(eve",
"<a:not(:nth-child(even",
"<a:not(:nth-child(o",
"<a:not(:nth-child(od",
"<a:not(:nth-child(odd",
"<a:not(:nth-l",
"<a:not(:nth-la",
"<a:not(:nth-las",
"<a:not(:nth-last",
"<a:not(:nth-last-",
"<a:not(:nth-last-c",
"<a:not(:nth-last-ch",
"<a:not(:nth-last-chi",
"<a:not(:nth-last-chil",
"<a:not(:nth-last-child",
"<a:not(:nth-last-child(",
"<a:not(:nth-last-child(-",
"<a:not(:nth-last-child(1",
"<a:not(:nth-last-child(1)",
"<a:not(:nth-last-child(1n",
"<a:not(:nth-last-child(1n+",
"<a:not(:nth-last-child(1n+1",
"<a:not(:nth-last-child(e",
"<a:not(:nth-last-child(ev",
"<a:not(:nth-last-child(eve",
"<a:not(:nth-last-child(even",
"<a:not(:nth-last-child(o",
"<a:not(:nth-last-child(od",
"<a:not(:nth-last-child(odd",
"<a:not(:nth-last-o",
"<a:not(:nth-last-of",
"<a:not(:nth-last-of-",
"<a:not(:nth-last-of-t",
"<a:not(:nth-last-of-ty",
"<a:not(:nth-last-of-typ",
"<a:not(:nth-last-of-type",
"<a:not(:nth-last-of-type(",
"<a:not(:nth-last-of-type(-",
"<a:not(:nth-last-of-type(1",
"<a:not(:nth-last-of-type(1)",
"<a:not(:nth-last-of-type(1n",
"<a:not(:nth-last-of-type(1n+",
"<a:not(:nth-last-of-type(1n+1",
"<a:not(:nth-last-of-type(e",
"<a:not(:nth-last-of-type(ev",
"<a:not(:nth-last-of-type(eve",
"<a:not(:nth-last-of-type(even",
"<a:not(:nth-last-of-type(o",
"<a:not(:nth-last-of-type(od",
"<a:not(:nth-last-of-type(odd",
"<a:not(:nth-o",
"<a:not(:nth-of",
"<a:not(:nth-of-",
"<a:not(:nth-of-t",
"<a:not(:nth-of-ty",
"<a:not(:nth-of-typ",
"<a:not(:nth-of-type",
"<a:not(:nth-of-type(",
"<a:not(:nth-of-type(-",
"<a:not(:nth-of-type(1",
"<a:not(:nth-of-type(1)",
"<a:not(:nth-of-type(1n",
"<a:not(:nth-of-type(1n+",
"<a:not(:nth-of-type(1n+1",
"<a:not(:nth-of-type(e",
"<a:not(:nth-of-type(ev",
"<a:not(:nth-of-type(eve",
"<a:not(:nth-of-type(even",
"<a:not(:nth-of-type(o",
"<a:not(:nth-of-type(od",
"<a:not(:nth-of-type(odd",
"<a:not(:o",
"<a:not(:on",
"<a:not(:onl",
"<a:not(:only",
"<a:not(:only-",
"<a:not(:only-c",
"<a:not(:only-ch",
"<a:not(:only-chi",
"<a:not(:only-chil",
"<a:not(:only-child",
"<a:not(:only-o",
"<a:not(:only-of",
"<a:not(:only-of-",
"<a:not(:only-of-t",
"<a:not(:only-of-ty",
"<a:not(:only-of-typ",
"<a:not(:only-of-type",
"<a:not(:t",
"<a:not(:ty",
"<a:not(:typ",
"<a:not(:type",
"<a:not(:type-",
"<a:not(:type-m",
"<a:not(:type-ma",
"<a:not(:type-mat",
"<a:not(:type-matc",
"<a:not(:type-match",
"<a:not(:type-matche",
"<a:not(:type-matches",
"<a:not(:type-matches(",
"<a:not(:type-matches(\"",
"<a:not(:type-matches(\"\\",
"<a:not(:type-matches(\"a",
"<a:not(:type-matches('",
"<a:not(:type-matches('\\",
"<a:not(:type-matches('a",
"<a:not(:type-matches(/",
"<a:not(:type-matches(//",
"<a:not(:type-matches(//)",
"<a:not(:type-matches(//c",
"<a:not(:type-matches(//i",
"<a:not(:type-matches(/\\",
"<a:not(:type-matches(/a",
"<a:nt",
"<a:nth",
"<a:nth-",
"<a:nth-c",
"<a:nth-ch",
"<a:nth-chi",
"<a:nth-chil",
"<a:nth-child",
"<a:nth-child(",
"<a:nth-child(-",
"<a:nth-child(1",
"<a:nth-child(1)",
"<a:nth-child(1n",
"<a:nth-child(1n+",
"<a:nth-child(1n+1",
"<a:nth-child(e",
"<a:nth-child(ev",
"<a:nth-child(eve",
"<a:nth-child(even",
"<a:nth-child(o",
"<a:nth-child(od",
"<a:nth-child(odd",
"<a:nth-l",
"<a:nth-la",
"<a:nth-las",
"<a:nth-last",
"<a:nth-last-",
"<a:nth-last-c",
"<a:nth-last-ch",
"<a:nth-last-chi",
"<a:nth-last-chil",
"<a:nth-last-child",
"<a:nth-last-child(",
"<a:nth-last-child(-",
"<a:nth-last-child(1",
"<a:nth-last-child(1)",
"<a:nth-last-child(1n",
"<a:nth-last-child(1n+",
"<a:nth-last-child(1n+1",
"<a:nth-last-child(e",
"<a:nth-last-child(ev",
"<a:nth-last-child(eve",
"<a:nth-last-child(even",
"<a:nth-last-child(o",
"<a:nth-last-child(od",
"<a:nth-last-child(odd",
"<a:nth-last-o",
"<a:nth-last-of",
"<a:nth-last-of-",
"<a:nth-last-of-t",
"<a:nth-last-of-ty",
"<a:nth-last-of-typ",
"<a:nth-last-of-type",
"<a:nth-last-of-type(",
"<a:nth-last-of-type(-",
"<a:nth-last-of-type(1",
"<a:nth-last-of-type(1)",
"<a:nth-last-of-type(1n",
"<a:nth-last-of-type(1n+",
"<a:nth-last-of-type(1n+1",
"<a:nth-last-of-type(e",
"<a:nth-last-of-type(ev",
"<a:nth-last-of-type(eve",
"<a:nth-last-of-type(even",
"<a:nth-last-of-type(o",
"<a:nth-last-of-type(od",
"<a:nth-last-of-type(odd",
"<a:nth-o",
"<a:nth-of",
"<a:nth-of-",
"<a:nth-of-t",
"<a:nth-of-ty",
"<a:nth-of-typ",
"<a:nth-of-type",
"<a:nth-of-type(",
"<a:nth-of-type(-",
"<a:nth-of-type(1",
"<a:nth-of-type(1)",
"<a:nth-of-type(1n",
"<a:nth-of-type(1n+",
"<a:nth-of-type(1n+1",
"<a:nth-of-type(e",
"<a:nth-of-type(ev",
"<a:nth-of-type(eve",
"<a:nth-of-type(even",
"<a:nth-of-type(o",
"<a:nth-of-type(od",
"<a:nth-of-type(odd",
"<a:o",
"<a:on",
"<a:onl",
"<a:only",
"<a:only-",
"<a:only-c",
"<a:only-ch",
"<a:only-chi",
"<a:only-chil",
"<a:only-child",
"<a:only-o",
"<a:only-of",
"<a:only-of-",
"<a:only-of-t",
"<a:only-of-ty",
"<a:only-of-typ",
"<a:only-of-type",
"<a:t",
"<a:ty",
"<a:typ",
"<a:type",
"<a:type-",
"<a:type-m",
"<a:type-ma",
"<a:type-mat",
"<a:type-matc",
"<a:type-match",
"<a:type-matche",
"<a:type-matches",
"<a:type-matches(",
"<a:type-matches(\"",
"<a:type-matches(\"\\",
"<a:type-matches(\"a",
"<a:type-matches('",
"<a:type-matches('\\",
"<a:type-matches('a",
"<a:type-matches(/",
"<a:type-matches(//",
"<a:type-matches(//)",
"<a:type-matches(//c",
"<a:type-matches(//i",
"<a:type-matches(/\\",
"<a:type-matches(/a",
"<a>{",
"<a>{<a/>}",

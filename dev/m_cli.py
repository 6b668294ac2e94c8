A = "bin/app.rs"
Q = "    #[clap(short, long)]\n    pub quiet"; D = "    #[clap(long)]\n    pub def"; F = "    pub files: Vec<String>,"
def c(n, ex, o, new): return (n, ex, A, [(o, new)], ["A01"])
CASES = [
 c("multi", "bad", D, D.replace("long", "long, multiple_values = true")),
 c("delim", "bad", D, D.replace("long", "long, use_value_delimiter = true")),
 c("delim2", "bad", D, D.replace("long", "long, value_delimiter = ';'")),
 c("req-delim", "bad", D, D.replace("long", "long, require_value_delimiter = true")),
 c("short-def", "bad", D, D.replace("long", "long, short")),
 c("alias", "bad", D, D.replace("long", "long, alias = \"define\"")),
 c("default", "bad", F, "    #[clap(default_value = \"main.ogma\")]\n" + F),
 c("conflict", "bad", Q, Q.replace("long", "long, conflicts_with = \"files\"")),
 c("requires", "bad", Q, Q.replace("long", "long, requires = \"files\"")),
 c("last", "bad", F, "    #[clap(last = true)]\n" + F),
 c("fdelim", "bad", F, "    #[clap(use_value_delimiter = true)]\n" + F),
 c("hyphen", "bad", F, "    #[clap(allow_hyphen_values = true)]\n" + F),
 c("numvals", "bad", D, D.replace("long", "long, number_of_values = 2")),
 c("infer", "bad", '#[clap(name = "ogma")]', '#[clap(name = "ogma", infer_long_args = true)]'),
 c("argreq", "bad", '#[clap(name = "ogma")]', '#[clap(name = "ogma", arg_required_else_help = true)]'),
 c("override", "bad", '#[clap(name = "ogma")]', '#[clap(name = "ogma", args_override_self = true)]'),
 c("trailing", "bad", '#[clap(name = "ogma")]', '#[clap(name = "ogma", trailing_var_arg = true)]'),
 c("validator", "bad", F, "    #[clap(validator = |s: &str| if s.ends_with(\".ogma\") || !s.contains('.') { Ok(()) } else { Err(\"no script\") })]\n" + F),
 c("parse-with", "bad", F, "    #[clap(parse(from_str = up))]\n" + F + "\n}\nfn up(s: &str) -> String { s.trim().to_string() }\nstruct _X {"),
 c("dashes", "ok", Q, Q.replace("short, long", "short = 'q', long = \"quiet\"")),
 c("dlong", "ok", D, D.replace("long", "long = \"def\", value_name = \"FILE\"")),
 c("doc", "ok", "/// Suppress progress output.", "/// Suppress all progress output.\n    ///\n    /// More words."),
 c("one-attr", "ok", '#[clap(name = "ogma")]\n#[clap(author = "Kurt Lawrence <kurtlawrence92@gmail.com>")]', '#[clap(name = "ogma", author = "Kurt Lawrence <kurtlawrence92@gmail.com>")]'),
 c("reorder", "ok", "    /// Suppress progress output.\n    #[clap(short, long)]\n    pub quiet: bool,\n\n    /// Include definition file. Glob syntax is supported.\n    #[clap(long)]\n    pub def: Option<Vec<String>>,\n", "    /// Include definition file. Glob syntax is supported.\n    #[clap(long)]\n    pub def: Option<Vec<String>>,\n    /// Suppress progress output.\n    #[clap(short, long)]\n    pub quiet: bool,\n"),
 c("fval", "ok", F, "    #[clap(value_name = \"FILE\", multiple_values = true)]\n" + F),
 c("vparser", "ok", F, "    #[clap(value_parser)]\n" + F),
]

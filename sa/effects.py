"""Effects of foreign functions, and the allow-list of what has none."""
import re
RULES = [   # (effect, pattern on the generics-free path), first match wins
    ("fs-write", r"std::fs::(write|create_dir|create_dir_all|copy|rename|remove_\w+|hard_link|soft_link|set_permissions|set_times|File::(create\w*|options|set_\w+)|OpenOptions::\w+|DirBuilder::\w+)$"),
    ("fs-write", r"std::os::(unix|windows)::fs::|std::io::.*Write for std::fs::File"),
    ("fs-read", r"std::fs::(?!DirEntry::(file_name|path)$|(Metadata|FileType|Permissions)::)"),
    ("fs-read", r"<std::fs::(ReadDir|File) as "),
    ("fs-read", r"std::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|canonicalize|read_dir|metadata|symlink_metadata|read_link)$"),
    ("fs-read", r"^glob::glob"),
    ("fs-watch", r"^<?notify::"),
    ("random", r"fastrand::|std::hash::random|RandomState::new|getrandom"),
    ("clock", r"std::time::(Instant|SystemTime)::(now|elapsed)|time::OffsetDateTime::now|::now_utc|::now_local"),
    ("console", r"std::io::stdio::|crossterm::|^tui::terminal|CrosstermBackend"),
    ("exit", r"std::process::(exit|abort)$"),
    ("process", r"std::process::|libc::"),
    ("env", r"std::env::"),
    ("net", r"std::net::"),
    ("thread", r"std::thread::(functions::spawn|builder::Builder::spawn\w*|spawn)|rayon_core::(spawn|join)|rayon::spawn|crossbeam_utils::thread::"),
    ("sleep", r"std::thread::(functions::)?(sleep|park)\w*"),
    ("fs-write", r"fs::File as std::io::Write"),
    ("log", r"^log::"),
    ("foreign-code", r"^extern|::ffi::c_str::|dlopen"),
]
RULES = [(e, re.compile(p)) for e, p in RULES]
# modules of the standard library and foreign crates whose functions touch nothing outside their arguments
PURE = re.compile(r"^[<&('\[]*(?:mut |dyn |\*const |\*mut )?(?:'\w+ )?(core|alloc|std::fs::(DirEntry|Metadata|FileType|Permissions)|std::(collections|path|ffi|string|f64|f32|num|hash|sync|time|error|io::(?!stdio)|panic|panicking|alloc|vec|borrow|thread::(local|builder::Builder::(new|name)|join_handle|scoped)|process::ExitCode)|kserd|table|divvy|numfmt|nom|petgraph|hashbrown|rustc_hash|serde|serde_core|serde_json|smallvec|itertools|either|bitflags|simsearch|strsim|colored|comfy_table|cansi|encoding|globset|regex|time|tui|unicode_width|lsp_types|lsp_server|paste|lazy_static|spin|parking_lot|lock_api|crossbeam_channel|rayon|backtrace|indexmap|fnv|memchr|aho_corasick|clap|term_size|typenum|once_cell)(::|\b)")
def effect(path):
    """The effect of a foreign function; None: none; '?': not known."""
    for e, p in RULES:
        if p.search(path): return e
    p = re.sub(r"^<+(&'?\w* ?(mut )?)?", "<", path)
    if PURE.search(path) or PURE.search(p.lstrip("<")): return None
    m = re.match(r"^<.* as ([\w:]+)", path)
    if m and PURE.search(m.group(1)): return None
    return "?"

class Effects:
    def __init__(s, g):
        s.g = g; s.direct = {}
        for k, n in g.nodes.items():
            for x in n.ext:
                e = effect(x.path)
                if e: s.direct.setdefault(k, []).append((e, x))
    def of(s, root):
        """{effect: [(node, Ext)]} of everything reachable from root; and the predecessor map"""
        pre = s.g.reach([root]); out = {}
        for k in pre:
            for e, x in s.direct.get(k, ()): out.setdefault(e, []).append((k, x))
        return out, pre

"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, level_note=level_note, claimed=claimed, reason=reason))

LSP = "jinja-lsp/src/channels/lsp.rs"
DIAG = "jinja-lsp/src/channels/diagnostics.rs"
FILES = "jinja-lsp/src/lsp_files.rs"
BACK = "jinja-lsp/src/backend.rs"
CONF = "jinja-lsp/src/config.rs"
Q = "jinja-lsp-queries/src/"
DEFQ = Q + "search/definition.rs"
OBJQ = Q + "search/objects.rs"
TPLQ = Q + "search/templates.rs"
SNIP = Q + "search/snippets_completion.rs"
RUSTQ = Q + "search/rust_identifiers.rs"
RTPL = Q + "search/rust_template_completion.rs"
PYQ = Q + "search/python_identifiers.rs"
QUERIES = Q + "search/queries.rs"
HELP = Q + "lsp_helper.rs"
EDIT = Q + "to_input_edit.rs"
NODE = "jinja-lsp-nodejs/src/lib.rs"

exec(open(os.path.join(ROOT, "tools", "list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": "backend and config modules made public under cfg(jinja_lsp_verif)"},
        }) + "\n")

TECH = "explicit enumeration of all {} within bounds on the real server in process, compared step by step with a reference model"
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "cfg(jinja_lsp_verif)",
              "enable": "mc/.cargo/config.toml passes --cfg jinja_lsp_verif to rustc when the checker is built",
              "source_commits": ["469a9e9"]},
    "checks": [], "not_applicable": [],
    "notes": "check.sh ID TIER rebuilds the checker (crate mc, path dependency on /repo) and runs it; mc replay FILE replays a violation.",
}
for p in P:
    if not p["claimed"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
        continue
    m["checks"].append({
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": "model checking: " + p.get("tech", TECH.format({"inputs": "inputs", "histories": "histories", "schedules": "schedules", "configurations": "configurations"}.get(p["over"][0], "cases"))),
        "level": "model_checking", "level_note": p["level_note"],
    })
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

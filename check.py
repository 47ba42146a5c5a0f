#!/usr/bin/env python3
"""check.py <property> [--thorough]: run the static checks of one property on /repo's current tree."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import report

MODULES = {
    "C05": "query", "C06": "query", "C07": "query", "C08": "query", "C09": "query", "C10": "query", "C13": "query",
    "C12": "query", "C24": "query", "C16": "query", "C32": "query",
    "C25": "web", "C26": "web", "C28": "web", "C30": "web", "C03": "web", "C29": "cli", "C11": "effects", "C27": "protocol",
    "C31": "bitset", "C01": "safety", "C14": "words", "C15": "words",
    "C33": "automata", "C34": "automata",
    "C04": "anagrams", "C20": "expression", "C23": "expression", "C17": "parser", "C18": "parser", "C19": "parser", "C21": "parser", "C22": "parser",
}


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    m = importlib.import_module("rules." + MODULES[prop])
    import base, absint
    rep = report.Report(prop, tier)
    try:
        getattr(m, prop.lower())(rep, tier)
    except base.Missing as e:
        rep.rule("anchor", "every construct the rules are anchored to exists")
        rep.ob("anchor", str(e), False, "", "an anchor of this check is gone, so the property cannot be established")
    except absint.Budget as e:
        rep.rule("budget", "the analysis reaches a fixpoint within its step budget")
        rep.ob("budget", "fixpoint", False, "", str(e))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())

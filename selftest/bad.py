"""Edits that break a property: (name, properties that must report it, edits)."""
V = "_version.py"
B = "base.py"
T = "two_layer_model.py"
R = "impulse_response_model.py"
U = "utils.py"
E = "errors.py"

BAD = [
    # ---- C31
    ("v-oserror", ["C31"], [(V, "        except EnvironmentError:\n            e = sys", "        except FileNotFoundError:\n            e = sys")]),
    ("v-describe-none", ["C31"], [(V, "    if describe_out is None:\n        raise NotThisMethod(\"'git describe' failed\")\n", "")]),
    ("v-describe-rc", ["C31"], [(V, "    if full_out is None:\n", "    if full_out == '':\n")]),
    ("v-parentdir", ["C31"], [(V, "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except NotThisMethod:\n        pass", "            return versions_from_parentdir(cfg.parentdir_prefix, root, verbose)\n    except ValueError:\n        pass")]),
    ("v-final-none", ["C31"], [(V, "    return {\"version\": \"0+unknown\", \"full-revisionid\": None,\n            \"dirty\": None,\n            \"error\": \"unable to compute version\", \"date\": None}", "    return None")]),
    ("v-file", ["C31"], [(V, "    except NameError:", "    except AttributeError:")]),
    ("v-mo", ["C31"], [(V, "        if not mo:\n", "        if mo == '':\n")]),
    ("v-closest", ["C31"], [(V, "        pieces[\"closest-tag\"] = None\n", "")]),
    ("v-error-piece", ["C31"], [(V, "    if pieces[\"error\"]:\n        return {\"version\": \"unknown\",", "    if pieces[\"error\"]:\n        return {\"ver\": \"unknown\",")]),
    ("v-keywords-full", ["C31"], [(V, "    keywords = {\"refnames\": git_refnames, \"full\": git_full, \"date\": git_date}", "    keywords = {\"refnames\": git_refnames, \"date\": git_date}")]),
    ("v-style", ["C31"], [(V, "cfg.style = \"pep440\"", "cfg.style = \"pep440-branch\"")]),
    ("v-revlist", ["C31"], [(V, "        if count_out is None:\n            raise NotThisMethod(\"'git rev-list' failed\")\n", "")]),
    ("v-decode", ["C31"], [(V, "stdout.decode(\"utf-8\", \"replace\")", "stdout.decode()")]),
    ("v-date", ["C31"], [(V, "    if date is not None:\n        date = date.strip().replace(\" \", \"T\", 1).replace(\" \", \"\", 1)\n    pieces", "    date = date.strip().replace(\" \", \"T\", 1).replace(\" \", \"\", 1)\n    pieces")]),
    ("v-init", ["C31"], [("__init__.py", "__version__ = get_versions()[\"version\"]", "__version__ = get_versions().get(\"closest-tag\")")]),
]

CHECKS = {}
for p in ("S01","S02","S03","S04","S05","T01","T02","T03","T04","T05"):
    CHECKS[p] = dict(harness="h_typedb", name=p)
for p in ("L01","L02","L03"):
    CHECKS[p] = dict(harness="h_lexer", name=p)
for p in ("G01","G02","G03","G04","G05"):
    CHECKS[p] = dict(harness="h_grammar", name=p)
for p in ("G06","G07","G08"):
    CHECKS[p] = dict(harness="h_module", name=p)
CHECKS["B02"] = dict(parts=[dict(harness="h_args", name="B02"), dict(harness="h_args", name="B02S", variant="asan")])
for p in ("B03","B06"):
    CHECKS[p] = dict(harness="h_run", name=p)
for p in ("B04","B05"):
    CHECKS[p] = dict(harness="h_value", name=p)
for p in ("G09",):
    CHECKS[p] = dict(harness="h_cli", name=p, cli=True)
for p in ("C01","C02"):
    CHECKS[p] = dict(harness="h_cli", name=p, cli=True, so=True)
CHECKS["E01"] = dict(harness="h_error", name="E01")
CHECKS["B01"] = dict(parts=[dict(harness="h_object", name="B01"), dict(harness="h_object", name="B01S", variant="asan")])
CHECKS["G10"] = dict(parts=[dict(harness="h_table", name="G10", variant="asan")])
CHECKS["C03"] = dict(parts=[dict(harness="h_alloc", name="C03")])
CHECKS["B07"] = dict(harness="h_multi", name="B07")
CHECKS["B08"] = dict(harness="h_trace", name="B08")
CHECKS["G11"] = dict(harness="h_grammar", name="G11")
CHECKS["B09"] = dict(harness="h_grammar", name="B09")
CHECKS["G12"] = dict(harness="h_grammar", name="G12")

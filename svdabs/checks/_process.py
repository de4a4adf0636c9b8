"""The comparisons of the processing stage shared by several checks."""

import re

OPAQUE = ["Resolver.resolve_peripherals", "_ValidateAndFinalize._check_peripheral_address_overlaps",
          "_ValidateAndFinalize._check_registers_clusters_address_overlaps"]


def whole(chk, rule, observe, keep=None, rec=1, stepwise=True, **kw):
    """finished device, as a function of the resolved elements; where that is undecided, one step at a time, over whatever the step
    below returns for one member"""
    if not chk.func("Resolver.resolve_peripherals"):
        return chk.missing(rule, "Resolver.resolve_peripherals")
    if "warns" in observe and not all(chk.func(o) for o in OPAQUE):
        observe = tuple(o for o in observe if o != "warns")
        chk.missing(rule, "overlap checks")
    args = dict(opaque=[o for o in OPAQUE if chk.func(o)], observe=observe, keep=keep, rec=rec, max_out=4000, **kw)
    w = ("specs.drivers.process", "specs.process.process", args)
    # refusals: only the lists, since a step of its own is given elements the steps before have completed
    parts = [(a, b, k) for a, b, k in step_list(chk, tuple(o for o in observe if o in ("value", "warns", "raises")), keep)
             if "raises" not in observe or b in ("specs.process.step_peripherals", "specs.process.step_registers_clusters")]
    if not stepwise or not parts or any(o not in ("value", "warns", "raises") for o in observe):
        return chk.equiv(rule, w[0], w[1], **args)
    chk.staged(rule, w, parts)


def step_list(chk, observe, keep):
    v = "_ValidateAndFinalize._validate_and_finalize_"
    names = [v + n for n in ("peripherals", "peripheral", "registers_clusters", "register_cluster", "fields", "enum_value_containers")]
    overlap = [o for o in OPAQUE[1:] if chk.func(o)]
    if not all(chk.func(n) for n in names):
        return []
    ps, p, rcs, rc, fs, es = names
    # what a cut step returns may be anything, also None, and has no order of its own: orders are compared on the whole device
    return [(actual, "specs.process.step_" + ref, dict(opaque=cut + overlap, observe=observe, keep=lambda d: "<order>" not in d.path and (keep is None or keep(d))))
            for actual, ref, cut in ((ps, "peripherals", [p]), (p, "peripheral", [rcs]), (rcs, "registers_clusters", [rc]),
                                     (rc, "register_cluster", [rcs, fs]), (fs, "fields", [es]), (es, "containers", []))]


def steps(chk, rule, observe=("value",), keep=None):
    """one element of the finished device, given what the steps below it make of its content"""
    parts = step_list(chk, observe, keep)
    if not parts:
        return chk.missing(rule, "_ValidateAndFinalize._validate_and_finalize_*")
    for actual, ref, k in parts:
        chk.equiv(rule, actual, ref, **k)


def elements(chk, rule, observe=("value", "raises", "warns", "store"), keep=None, only=("peripheral", "cluster", "register", "field")):
    """one resolved element, as a function of the parsed element, its base and its dimension index"""
    for k in only:
        chk.equiv(rule, f"Process._process_{k}", f"specs.derive.{k}", observe=observe, keep=keep)


def dimensions(chk, rule):
    expand = ("_ProcessDimension.process_dim", "specs.derive.expand_method", {})
    what = "Process._extract_and_process_dimension"
    parts = []
    if chk.func(expand[0]):
        parts = [expand, (what, "specs.derive.dimension_step", {"opaque": [expand[0]]})]
    chk.staged(rule, (what, "specs.derive.dimension", {}), parts, proves=True)
    chk.equiv(rule, *expand[:2])


def overlaps(chk, rule):
    names = {k: f"_ValidateAndFinalize._compute_allowed_alternate_{k}_names" for k in ("peripheral", "register", "cluster")}
    op = [n for n in names.values() if chk.func(n)]
    if len(op) == 3:
        chk.equiv(rule, "_ValidateAndFinalize._check_peripheral_address_overlaps", "specs.process.overlapping_peripherals", opaque=op)
        chk.equiv(rule, "_ValidateAndFinalize._check_registers_clusters_address_overlaps",
                  "specs.process.overlapping_registers_clusters", opaque=op, observe=("warns",))
    else:
        chk.missing(rule, "allowed-alternate functions")
    for k, n in names.items():
        chk.closure(rule, n, f"specs.process.{k}_alternates_start", f"specs.process.{k}_alternates_step")


def enumerated(chk, rule, keep=None):
    k = "_ProcessEnumeratedValueContainer"
    conv, comb = f"{k}._convert_enumerated_value", f"{k}._replace_x_combinations"
    if chk.func(conv):
        chk.equiv(rule, f"{k}.create_enumerated_value_container", "specs.enums.container", opaque=[conv], keep=keep)
        for n in ("one", "two"):
            chk.equiv(rule, f"specs.enums.code_{n}", f"specs.enums.want_{n}", opaque=[conv], keep=keep)
        if chk.func(comb):
            chk.equiv(rule, conv, "specs.enums.number", opaque=[comb], keep=keep)
            chk.equiv(rule, comb, "specs.enums.combinations", observe=("value",), keep=keep)
        else:
            chk.missing(rule, comb)
    else:
        chk.missing(rule, conv)


def last(d):
    """the attribute a difference is about"""
    m = re.search(r"\.([a-z_0-9]+)(?:<order>)?$", d.path)
    return m.group(1) if m else ""


def about(*names):
    return lambda d: last(d) in names


def membership(d):
    return d.path.endswith("]") or d.path.endswith(">")

"""Where a slope keeps what it has no public reader for.  The usual name is
tried first; should it be kept elsewhere, it is found by what it looks like."""


def planes(s):
    """analysed planes, or an empty list"""
    if hasattr(s, "_search"):
        return s._search
    for v in vars(s).values():
        if isinstance(v, (list, tuple)) and v and all(isinstance(p, dict) and "FOS" in p for p in v):
            return v
    return []


def loads(s, kind):
    """the loads of a class (its name) set on the slope"""
    usual = {"Udl": "_udls", "LineLoad": "_lls"}[kind]
    if hasattr(s, usual):
        return getattr(s, usual)
    for v in vars(s).values():
        if isinstance(v, (list, tuple)) and v and all(type(u).__name__ == kind for u in v):
            return v
    return []


def length(s):
    """the length of the model, as drawn when it is kept elsewhere"""
    if hasattr(s, "_external_length"):
        return s._external_length
    fig = s.plot_boundary(material_table=False)
    return max(max(t.x) for t in fig.data[:1])

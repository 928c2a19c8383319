"""The typed schema shared by the model, the generator and vf.typed (no dependency on the SDK)."""

# class -> {python name: (pulumi name, type, required)}; types: None (anything), "str", "int", "color", ("list", t), ("map", t), ("obj", cls)
LEAF, INNER = ("obj", "Leaf"), ("obj", "Inner")
CLASSES = {
    "Leaf": {"leaf_name": ("leafName", "str", True), "num_items": ("numItems", "int", False),
             "tag_map": ("tagMap", ("map", "str"), False), "color_kind": ("colorKind", "color", False)},
    "Inner": {"first_leaf": ("firstLeaf", LEAF, True), "more_leaves": ("moreLeaves", ("list", LEAF), False),
              "leaf_map": ("leafMap", ("map", LEAF), False), "any_thing": ("anyThing", None, False)},
    "Thing": {"the_name": ("theName", "str", False), "my_inner": ("myInner", INNER, False), "inner_list": ("innerList", ("list", INNER), False),
              "free_map": ("freeMap", ("map", None), False), "big_num": ("bigNum", "int", False), "doc_json": ("docJson", "str", False),
              "out_leaf": ("outLeaf", LEAF, False), "out_num": ("outNum", "int", False), "out_list": ("outList", ("list", LEAF), False),
              "out_inner": ("outInner", INNER, False), "out_color": ("outColor", "color", False)},
}
THING_INPUTS = ("the_name", "my_inner", "inner_list", "free_map", "big_num", "doc_json")
COLORS = ("red", "deep-blue")

# the names a resource with hand-written translation uses
LEGACY = {"my_p0": "myP0", "my_p1": "myP1", "my_o0": "myO0", "my_o1": "myO1", "k0": "kZero", "sub_key": "subKey", "q": "quux"}
LEGACY_BACK = {v: k for k, v in LEGACY.items()}
SREF_BACK = {"secretOutputNames": "secret_output_names"}


def py2pu(style):
    if style == "legacy":
        return LEGACY
    if style == "typed":
        return {k: v[0] for k, v in CLASSES["Thing"].items()}
    return {}


def pu2py(style):
    if style == "legacy":
        return LEGACY_BACK
    if style == "typed":
        return {v[0]: k for k, v in CLASSES["Thing"].items()}
    if style == "sref":
        return SREF_BACK
    return {}


def prop_type(style, py):
    if style == "typed" and py in CLASSES["Thing"]:
        return CLASSES["Thing"][py][1]
    return None

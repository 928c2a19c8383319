"""Provider-SDK style classes: input types, output types, an enum, and resources that use them."""
from enum import Enum
from typing import Any, Mapping, Optional, Sequence

import pulumi
from pulumi import Input


class ColorKind(str, Enum):
    RED = "red"
    DEEP_BLUE = "deep-blue"


@pulumi.input_type
class LeafArgs:
    def __init__(__self__, *, leaf_name: Input[str], num_items: Optional[Input[int]] = None,
                 tag_map: Optional[Input[Mapping[str, Input[str]]]] = None, color_kind: Optional[Input["ColorKind"]] = None):
        pulumi.set(__self__, "leaf_name", leaf_name)
        if num_items is not None:
            pulumi.set(__self__, "num_items", num_items)
        if tag_map is not None:
            pulumi.set(__self__, "tag_map", tag_map)
        if color_kind is not None:
            pulumi.set(__self__, "color_kind", color_kind)

    @property
    @pulumi.getter(name="leafName")
    def leaf_name(self) -> Input[str]:
        return pulumi.get(self, "leaf_name")

    @leaf_name.setter
    def leaf_name(self, value: Input[str]):
        pulumi.set(self, "leaf_name", value)

    @property
    @pulumi.getter(name="numItems")
    def num_items(self) -> Optional[Input[int]]:
        return pulumi.get(self, "num_items")

    @num_items.setter
    def num_items(self, value: Optional[Input[int]]):
        pulumi.set(self, "num_items", value)

    @property
    @pulumi.getter(name="tagMap")
    def tag_map(self) -> Optional[Input[Mapping[str, Input[str]]]]:
        return pulumi.get(self, "tag_map")

    @tag_map.setter
    def tag_map(self, value: Optional[Input[Mapping[str, Input[str]]]]):
        pulumi.set(self, "tag_map", value)

    @property
    @pulumi.getter(name="colorKind")
    def color_kind(self) -> Optional[Input["ColorKind"]]:
        return pulumi.get(self, "color_kind")

    @color_kind.setter
    def color_kind(self, value: Optional[Input["ColorKind"]]):
        pulumi.set(self, "color_kind", value)


@pulumi.input_type
class InnerArgs:
    def __init__(__self__, *, first_leaf: Input["LeafArgs"], more_leaves: Optional[Input[Sequence[Input["LeafArgs"]]]] = None,
                 leaf_map: Optional[Input[Mapping[str, Input["LeafArgs"]]]] = None, any_thing: Optional[Any] = None):
        pulumi.set(__self__, "first_leaf", first_leaf)
        if more_leaves is not None:
            pulumi.set(__self__, "more_leaves", more_leaves)
        if leaf_map is not None:
            pulumi.set(__self__, "leaf_map", leaf_map)
        if any_thing is not None:
            pulumi.set(__self__, "any_thing", any_thing)

    @property
    @pulumi.getter(name="firstLeaf")
    def first_leaf(self) -> Input["LeafArgs"]:
        return pulumi.get(self, "first_leaf")

    @property
    @pulumi.getter(name="moreLeaves")
    def more_leaves(self) -> Optional[Input[Sequence[Input["LeafArgs"]]]]:
        return pulumi.get(self, "more_leaves")

    @property
    @pulumi.getter(name="leafMap")
    def leaf_map(self) -> Optional[Input[Mapping[str, Input["LeafArgs"]]]]:
        return pulumi.get(self, "leaf_map")

    @property
    @pulumi.getter(name="anyThing")
    def any_thing(self) -> Optional[Any]:
        return pulumi.get(self, "any_thing")


@pulumi.output_type
class Leaf(dict):
    def __init__(__self__, *, leaf_name: str, num_items: Optional[int] = None, tag_map: Optional[Mapping[str, str]] = None,
                 color_kind: Optional["ColorKind"] = None):
        pulumi.set(__self__, "leaf_name", leaf_name)
        if num_items is not None:
            pulumi.set(__self__, "num_items", num_items)
        if tag_map is not None:
            pulumi.set(__self__, "tag_map", tag_map)
        if color_kind is not None:
            pulumi.set(__self__, "color_kind", color_kind)

    @property
    @pulumi.getter(name="leafName")
    def leaf_name(self) -> str:
        return pulumi.get(self, "leaf_name")

    @property
    @pulumi.getter(name="numItems")
    def num_items(self) -> Optional[int]:
        return pulumi.get(self, "num_items")

    @property
    @pulumi.getter(name="tagMap")
    def tag_map(self) -> Optional[Mapping[str, str]]:
        return pulumi.get(self, "tag_map")

    @property
    @pulumi.getter(name="colorKind")
    def color_kind(self) -> Optional["ColorKind"]:
        return pulumi.get(self, "color_kind")


@pulumi.output_type
class Inner(dict):
    def __init__(__self__, *, first_leaf: "Leaf", more_leaves: Optional[Sequence["Leaf"]] = None,
                 leaf_map: Optional[Mapping[str, "Leaf"]] = None, any_thing: Optional[Any] = None):
        pulumi.set(__self__, "first_leaf", first_leaf)
        if more_leaves is not None:
            pulumi.set(__self__, "more_leaves", more_leaves)
        if leaf_map is not None:
            pulumi.set(__self__, "leaf_map", leaf_map)
        if any_thing is not None:
            pulumi.set(__self__, "any_thing", any_thing)

    @property
    @pulumi.getter(name="firstLeaf")
    def first_leaf(self) -> "Leaf":
        return pulumi.get(self, "first_leaf")

    @property
    @pulumi.getter(name="moreLeaves")
    def more_leaves(self) -> Optional[Sequence["Leaf"]]:
        return pulumi.get(self, "more_leaves")

    @property
    @pulumi.getter(name="leafMap")
    def leaf_map(self) -> Optional[Mapping[str, "Leaf"]]:
        return pulumi.get(self, "leaf_map")

    @property
    @pulumi.getter(name="anyThing")
    def any_thing(self) -> Optional[Any]:
        return pulumi.get(self, "any_thing")


@pulumi.input_type
class ThingArgs:
    def __init__(__self__, *, the_name: Optional[Input[str]] = None, my_inner: Optional[Input["InnerArgs"]] = None,
                 inner_list: Optional[Input[Sequence[Input["InnerArgs"]]]] = None, free_map: Optional[Input[Mapping[str, Any]]] = None,
                 big_num: Optional[Input[int]] = None, doc_json: Optional[Input[str]] = None):
        for k, v in (("the_name", the_name), ("my_inner", my_inner), ("inner_list", inner_list), ("free_map", free_map),
                     ("big_num", big_num), ("doc_json", doc_json)):
            if v is not None:
                pulumi.set(__self__, k, v)

    @property
    @pulumi.getter(name="theName")
    def the_name(self) -> Optional[Input[str]]:
        return pulumi.get(self, "the_name")

    @property
    @pulumi.getter(name="myInner")
    def my_inner(self) -> Optional[Input["InnerArgs"]]:
        return pulumi.get(self, "my_inner")

    @property
    @pulumi.getter(name="innerList")
    def inner_list(self) -> Optional[Input[Sequence[Input["InnerArgs"]]]]:
        return pulumi.get(self, "inner_list")

    @property
    @pulumi.getter(name="freeMap")
    def free_map(self) -> Optional[Input[Mapping[str, Any]]]:
        return pulumi.get(self, "free_map")

    @property
    @pulumi.getter(name="bigNum")
    def big_num(self) -> Optional[Input[int]]:
        return pulumi.get(self, "big_num")

    @property
    @pulumi.getter(name="docJson")
    def doc_json(self) -> Optional[Input[str]]:
        return pulumi.get(self, "doc_json")


class Thing(pulumi.CustomResource):
    def __init__(self, typ, name, props, opts):
        self._vf_name, self._vf_style = name, "typed"
        __props__ = ThingArgs.__new__(ThingArgs)
        for k, v in props.items():
            __props__.__dict__[k] = v
        super().__init__(typ, name, __props__, opts)

    # (documented not to be called when the inputs are of an input type)
    def translate_input_property(self, prop):
        return "wrong_" + prop

    def translate_output_property(self, prop):
        return "wrong_" + prop

    @property
    @pulumi.getter(name="theName")
    def the_name(self) -> pulumi.Output[Optional[str]]:
        return pulumi.get(self, "the_name")

    @property
    @pulumi.getter(name="myInner")
    def my_inner(self) -> pulumi.Output[Optional["Inner"]]:
        return pulumi.get(self, "my_inner")

    @property
    @pulumi.getter(name="innerList")
    def inner_list(self) -> pulumi.Output[Optional[Sequence["Inner"]]]:
        return pulumi.get(self, "inner_list")

    @property
    @pulumi.getter(name="freeMap")
    def free_map(self) -> pulumi.Output[Optional[Mapping[str, Any]]]:
        return pulumi.get(self, "free_map")

    @property
    @pulumi.getter(name="bigNum")
    def big_num(self) -> pulumi.Output[Optional[int]]:
        return pulumi.get(self, "big_num")

    @property
    @pulumi.getter(name="docJson")
    def doc_json(self) -> pulumi.Output[Optional[str]]:
        return pulumi.get(self, "doc_json")

    @property
    @pulumi.getter(name="outLeaf")
    def out_leaf(self) -> pulumi.Output["Leaf"]:
        return pulumi.get(self, "out_leaf")

    @property
    @pulumi.getter(name="outNum")
    def out_num(self) -> pulumi.Output[int]:
        return pulumi.get(self, "out_num")

    @property
    @pulumi.getter(name="outList")
    def out_list(self) -> pulumi.Output[Optional[Sequence["Leaf"]]]:
        return pulumi.get(self, "out_list")

    @property
    @pulumi.getter(name="outInner")
    def out_inner(self) -> pulumi.Output[Optional["Inner"]]:
        return pulumi.get(self, "out_inner")

    @property
    @pulumi.getter(name="outColor")
    def out_color(self) -> pulumi.Output[Optional["ColorKind"]]:
        return pulumi.get(self, "out_color")


ARGS = {"Leaf": LeafArgs, "Inner": InnerArgs}
OUTS = {"Leaf": Leaf, "Inner": Inner}


def thing(rt, op, props, opts):
    return Thing(op["type"], op["n"], props, opts)

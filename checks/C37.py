"""C37: XML trees and DTDs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
char *xerr(xml.xml *x) { return x->error; }
dtd.schema_t *dparse(const char *s) { dtd.schema_t *r = calloc!(1, sizeof(dtd.schema_t)); *r = dtd.parse(s); return r; }
int dnelem(dtd.schema_t *s) { return s->elemnum; }
int dnatt(dtd.schema_t *s) { return s->attrnum; }
dtd.child_list_t *e_list(dtd.element_t *e) { return e->children; }
int l_size(dtd.child_list_t *l) { return l->size; }
int l_quant(dtd.child_list_t *l) { return (int) l->quantifier; }
int l_join(dtd.child_list_t *l) { return (int) l->jointype; }
bool l_islist(dtd.child_list_t *l, int i) { return l->items[i].islist; }
void *l_item(dtd.child_list_t *l, int i) { return l->items[i].data; }
char *c_name(dtd.child_t *c) { return c->name; }
int c_quant(dtd.child_t *c) { return (int) c->quantifier; }
int al_size(dtd.attlist_t *l) { return l->size; }
char *a_name(dtd.attlist_t *l, int i) { return l->items[i].name; }
int a_type(dtd.attlist_t *l, int i) { return l->items[i].type; }
int a_flag(dtd.attlist_t *l, int i) { return l->items[i].flag; }
"""


def body(c):
    fs = "xml.xml_open xml.xml_close xml.xml_nodename xml.xml_attr xml.xml_enter xml.xml_next xml.xml_leave xerr dparse dtd.get_element dtd.get_attributes dnelem dnatt e_list l_size l_quant l_join l_islist l_item c_name c_quant al_size a_name a_type a_flag".split()
    exe = lib_driver("xml", ["formats/xml", "formats/dtd"], fs, "xml.c", pre=PRE)
    for p in ("xml", "dtd"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C37", body, ["elements and attributes only: no text, comments or entities; names of letters"])

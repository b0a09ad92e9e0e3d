"""C47: the TFT and Arena data hold everything the game data has, with references resolved."""
import os.path
from vfa.q import *
from vfa import terms as tm
from vfa.sim import Sim, Obj

RULE = """The transformers are analysed from build_template, with the lookups of BIN objects (decided by C46) as primitives, and the template they give is evaluated for sample game data of each generation: fields that are present, missing or in their older form, shared and
empty lists, templates, incomplete sets, dangling and repeated references, names in any casing. The sets, champions, traits, items and augments of the template must be those of the data: each one once, in its place, each reference replaced with the name of what it refers to, each
missing field null, taken from the older field or the default. A path that may be missing must not be turned into text before it is known to be there."""

SETS, CHAMPS, TRAITS, ITEMS, AUGMENTS, TEXT = ("every complete set with what its lists name", "every champion with its record", "every trait with its effects", "every item with its references resolved", "every enabled augment", "a missing value is not made text")
GETTERS = ("getv", "get", "get_path", "__getitem__", "__contains__")
OPAQUE = {f"binfile.BinObjectWithFields.{n}" for n in GETTERS} | {"binfile.BinFile.__init__", "binfile.BinObjectWithFields.to_serializable", "binfile.BinStruct.to_serializable", "binfile.BinMap.to_serializable", "binfile.BinField.to_serializable"}


class Ref(Obj):
    """A hash object."""

    def __init__(self, s, known=True):
        self.h = sum(ord(ch) * 31 ** k for k, ch in enumerate(s.lower())) % 0xffffffff if s else 0
        super().__init__(f"<{s}>", {"BinHashBase", "BinEntryPath", "BinHashValue", "BinPathValue"}, h=self.h, s=s if known else None, str=s if known and s else "{%08x}" % self.h)

    def __eq__(self, other):
        if isinstance(other, str):
            return self.attrs["str"].lower() == other.lower()
        return other.h == self.h if isinstance(other, Ref) else isinstance(other, int) and other == self.h

    def __hash__(self):
        return self.h


class Ent(Obj):
    """An entry, or a structure, given by its fields."""

    def __init__(self, kind, path=None, fields=None, embedded=False):
        self.data = {str(k).lower(): v for k, v in (fields or {}).items()}
        fs = [Obj(f"{k}", {"BinField"}, name=k, value=v) for k, v in (fields or {}).items()]
        super().__init__(f"{kind} {path or ''}", {"BinEmbedded" if embedded else "BinStruct"}, type=kind, path=Ref(path) if isinstance(path, str) else path, fields=fs)

    def find(self, k):
        return str(k).lower()

    def getv(self, k, default=None):
        v = self.data.get(self.find(k), default)
        return v


def key(k):
    return k if isinstance(k, str) else str(k)


class World:
    def __init__(self, i, entries, files=None, extra=None):
        self.i, self.entries, self.files, self.extra = i, entries, files or {}, extra or {}
        self.sim = Sim(i, self.world, memo=True)
        self.memo = {}
        self.me = Obj("transformer", {"TftTransformer", "ArenaTransformer"}, input_dir="in", game_version=1502)

    def path_of(self, t, sim):
        a = [y for y in t.args[2:] if y.op not in ("uid", "kw")] if t.op == "obj" else [y for y in t.args[1:] if y.op not in ("uid", "kw")]
        a = a or [y.args[1] for y in t.args[2:] if y.op == "kw" and y.args[0] == "f"]
        return sim.value(a[0])

    def world(self, sim, x, nothing):
        op, a = x.op, x.args
        if op == "param":
            return self.me if a[0] == "self" else self.extra.get(a[0], nothing)
        if op == "attr" and a[1] == "entries" and a[0].op == "obj":
            p = self.path_of(a[0], sim)
            if p.replace("\\", "/") == self.main():
                return self.entries
            if p in self.files:
                return self.files[p]
            raise Fails
        if op == "call" and isinstance(a[0], str):
            n = a[0]
            if n in ("os.path.exists", "os.path.isfile"):
                return sim.value(a[1]) in self.files
            if n.startswith("repo:cdtb.binfile.") and n.rsplit(".", 1)[1] in GETTERS:
                args = [y for y in a[1:] if y.op not in ("uid", "kw")]
                kw = {y.args[0]: sim.value(y.args[1]) for y in a[1:] if y.op == "kw"}
                return self.getter(n.rsplit(".", 1)[1], *[sim.value(y) for y in args], **kw)
            if n == "copy.deepcopy":
                return sim.value(a[1])
        if op == "mcall" and a[1] in GETTERS:
            o = sim.value(a[0])
            if isinstance(o, (Ent, dict)):
                return self.getter(a[1], o, *[sim.value(y) for y in a[2:] if y.op not in ("uid", "kw")], **{y.args[0]: sim.value(y.args[1]) for y in a[2:] if y.op == "kw"})
            if o is None:
                raise Fails
        if op == "mcall" and a[1] in ("lower", "upper", "endswith", "startswith", "replace", "split", "rsplit"):
            o = sim.value(a[0])
            if isinstance(o, Ref):
                return getattr(o.attrs["str"], a[1])(*[sim.value(y) for y in a[2:] if y.op not in ("uid", "kw")])
        if op == "mcall" and a[1] in ("items", "values", "keys"):
            o = sim.value(a[0])
            if isinstance(o, dict):
                return tuple(getattr(o, a[1])())
            raise Fails
        if op == "mcall" and a[1] == "to_serializable" or op == "call" and str(a[0]).endswith(".to_serializable"):
            o = sim.value(a[0] if op == "mcall" else a[1])
            if isinstance(o, Obj) and "serial" in o.attrs:
                return o.attrs["serial"]
            raise Unknown
        if op == "in":
            o = sim.value(a[1])
            if o is None:
                raise Fails
            if isinstance(o, Ent):
                return o.find(sim.value(a[0])) in o.data
            if isinstance(o, str):
                v = sim.value(a[0])
                if not isinstance(v, str):
                    raise Fails
                return v in o
        if op == "index":
            o = sim.value(a[0])
            if isinstance(o, Ent):
                return self.getter("__getitem__", o, sim.value(a[1]))
            if o is None:
                raise Fails
        if op == "truthy":
            o = sim.value(a[0])
            if isinstance(o, Obj):
                return True
        if op == "dict" and all(y.op == "pair" for y in a):
            return {sim.value(y.args[0]): sim.value(y.args[1]) for y in a}
        if op == "cat":
            out = ""
            for y in a:
                o = sim.value(y)
                out += o.attrs["str"] if isinstance(o, Ref) else str(o)
            return out
        if op == "call" and a[0] in ("dict",) and len(a) == 1:
            return {}
        if op == "bin" and a[0] == "+":
            vs = [sim.value(y) for y in a[1:]]
            if all(isinstance(v, (tuple, list)) for v in vs):
                return tuple(z for v in vs for z in v)
        if op in ("list", "tuple", "set") and not a:
            return ()
        if op == "opaque":
            raise Unknown
        return nothing

    def main(self):
        return self.extra.get("main", "in/data/maps/shipping/map22/map22.bin")

    def getter(self, n, o, *args, **kw):
        if isinstance(o, dict):
            if n == "get":
                return o.get(*args)
            if n == "__getitem__":
                if args[0] not in o:
                    raise Fails
                return o[args[0]]
            if n == "__contains__":
                return args[0] in o
            raise Fails
        if not isinstance(o, Ent):
            raise Fails
        if n == "getv":
            return o.getv(args[0], *args[1:], **kw)
        if n == "get":
            k = o.find(args[0])
            d = args[1] if len(args) > 1 else kw.get("default")
            return Obj(f"field {k}", {"BinField"}, name=k, value=o.data[k], serial=(k, o.data[k].attrs.get("serial") if isinstance(o.data[k], Obj) else o.data[k])) if k in o.data else d
        if n == "__contains__":
            return o.find(args[0]) in o.data
        if n == "__getitem__":
            k = o.find(args[0])
            if k not in o.data:
                raise Fails
            return Obj(f"field {k}", {"BinField"}, name=k, value=o.data[k])
        v = o
        for k in args:
            if not isinstance(v, Ent):
                raise Fails
            if v.find(k) not in v.data:
                return kw.get("default")
            v = v.data[v.find(k)]
        return v


def plain(v):
    """Values as they would be written: hash objects as their text, tuples as lists."""
    if isinstance(v, Ref):
        return ("ref", v.attrs["str"])
    if isinstance(v, Obj):
        return repr(v)
    if isinstance(v, dict):
        return {k if not isinstance(k, Ref) else k.attrs["str"]: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def check(c):
    c.part(tft)
    c.part(arena)
    c.part(texts)


# ---------------------------------------------------------------- sample data

def trait(n, **kw):
    return Ent("TftTraitData", f"Traits/{n}", {"mName": n, "mDisplayNameTra": f"name_{n}", "mDescriptionNameTra": f"desc_{n}", "mIconPath": Ref(f"icons/{n}.tex"), **kw})


def effects(**kw):
    return Ent("Effects", None, kw)


def amounts(**kw):
    return [Ent("Amount", None, {"name": Ref(k), "value": v}) for k, v in kw.items()]


def constants(**kw):
    return Ent("Constants", None, {str(0xdf085b93): {k: Ent("Number", None, {"mValue": v}) for k, v in kw.items()}})


def item(n, **kw):
    d = {"mName": n, "mDisplayNameTra": f"name_{n}", "mDescriptionNameTra": f"desc_{n}", "mIconPath": Ref(f"icons/{n}.dds"), **kw}
    return Ent("TftItemData", f"Items/{n}", {k: v for k, v in d.items() if v is not ...})


def refs(kind, *names):
    return [Ref(f"{kind}/{n}") for n in names]


def shop(n, **kw):
    d = {"mName": n, "mDisplayNameTra": f"name_{n}", "mDescriptionTra": f"adesc_{n}", "mAbilityNameTra": f"aname_{n}", "PcSplashPath": Ref(f"{n}/pc.tex"), "TeamPlannerPortraitPath": Ref(f"{n}/tile.tex"), "SquareSplashPath": Ref(f"{n}/square.tex"), "AbilityIconPath": Ref(f"{n}/ability.tex"), **kw}
    return Ent("TftShopData", f"Shop/{n}", {k: v for k, v in d.items() if v is not ...})


def record(n, kind="TFTCharacterRecord", **kw):
    return Ent(kind, f"Records/{n}", {"mCharacterName": n, "spells": [Ref(""), Ref(f"Spells/{n}")], "mLinkedTraits": refs("Traits", "Set1_A"), "baseHP": 500, "BaseDamage": 50, "baseArmor": 20, "baseSpellBlock": 21, "critDamageMultiplier": 1.4, "baseCritChance": 0.25, "attackSpeed": 0.7, "attackRange": 540, **kw})


def spell(n, path=None, **kw):
    return Ent("SpellObject", f"Spells/{path or n}", {"mScriptName": n, "mSpell": Ent("Spell", None, kw)})


def variables(new, **kw):
    return [Ent("Value", None, {("name" if new else "mName"): k, ("values" if new else "mValues"): v}) for k, v in kw.items()]


def tooltip(**kw):
    return Ent("Client", None, {"mTooltipData": Ent("Tooltip", None, {"mLocKeys": kw})})


def setdata(n, **kw):
    d = {"number": n, "Mutator": f"TFTSet{n}", "characterLists": refs("CharLists", n), "TraitLists": refs("TraitLists", n), "ScriptData": {"SetName": Ent("Str", None, {"mValue": f"Set {n}"})}, "ItemLists": refs("ItemLists", n), **kw}
    return Ent("TFTSetData", f"Sets/{n}", {k: v for k, v in d.items() if v is not ...})


def character(n, kind="Character"):
    return Ent(kind, f"Characters/{n}", {"name": n})


def listed(kind, n, field, values):
    return Ent(kind, f"{n}", {field: values})


def modern():
    es = [
        character("TFT_Ahri"), character("tft_Braum", "TftCharacter"), character("TFT_Ghost"), character("TFT_Old"), character("TFT_Named"), character("TFT_Linked"),
        trait("Set1_A", mTraitSets=[effects(mMinUnits=2, mMaxUnits=3, mStyle=1, effectAmounts=amounts(AD=5, AP=0)), effects(mMinUnits=4, mStyle=3, effectAmounts=amounts(AD=10))]),
        trait("Set1_B", mConditionalTraitSets=[effects(MinUnits=1, constants=constants(Bonus=1, Base=7)), effects(MinUnits=3, MaxUnits=0, Style=4)], InnateTraitSets=[effects(constants=constants(Base=2)), effects(effectAmounts=amounts(Extra=3))]),
        trait("Set1_Template_x"), trait("Set2_C", mIconPath=None, mTraitSets=[effects(mMinUnits=1, constants=Ent("Constants", None, {}))]), trait("Set1_Empty", mIconPath=None),
        item("TFT_Item_Sword", mId=1), item("TFT_Item_Bow", mId=2, mIsUnique=True), item("TFT_Item_Gunblade", mId=19, mComposition=refs("Items", "TFT_Item_Bow", "TFT_Item_Sword", "TFT_Item_Bow"), effectAmounts=amounts(LifeSteal=0.25)),
        item("TFT_Item_New", mComposition=refs("Items", "TFT_Item_Sword", "TFT_Item_Later"), AssociatedTraits=refs("Traits", "Set1_A"), IncompatibleTraits=refs("Traits", "Set1_B", "Set2_C"), ItemTags=[Ref("tagA"), Ref("tagB", False)], constants=constants(X=1)),
        item("TFT_Item_Later", mIconPath=..., mDescriptionNameTra=...), item("TFT_Item_Null"), item("TFT_Template_Item"), item("TFT_Augment_1", IsAugment=True, mIconPath="icons/text.dds"), item("TFT_Augment_0", IsAugment=True), item("TFT_Item_Zero", mId=0),
        listed("MapCharacterList", "CharLists/1", "Characters", refs("Characters", "TFT_Ahri", "TFT_Braum", "TFT_Unknown", "TFT_Ghost")), listed("TftCharacterList", "CharLists/2", "Characters", refs("Characters", "TFT_Old", "TFT_Ahri")),
        listed("TftCharacterList", "CharLists/2b", "Characters", refs("Characters", "TFT_Named", "TFT_Linked")),
        listed("TftTraitList", "TraitLists/1", "mTraits", refs("Traits", "Set1_B", "Set1_A", "Set1_Template_x", "Set1_B")), listed("TftTraitList", "TraitLists/2", "mTraits", refs("Traits", "Set2_C")), listed("TftTraitList", "TraitLists/2b", "mTraits", refs("Traits", "Set1_A", "Set1_B")),
        listed("TFTItemList", "ItemLists/1", "mItems", refs("Items", "TFT_Item_Sword", "TFT_Augment_1", "TFT_Missing", "TFT_Item_Bow", "TFT_Augment_0", "TFT_Item_Sword")), listed("TFTItemList", "ItemLists/2", "other", []),
        listed("TFTItemList", "ItemLists/2b", "mItems", refs("Items", "TFT_Augment_1", "TFT_Item_Bow")),
        setdata(1), setdata(2, Mutator=..., name="Named2", characterLists=refs("CharLists", "2", "gone"), tftCharacterLists=refs("CharLists", "2b"), TraitLists=refs("TraitLists", "2", "2b", "gone"), ItemLists=refs("ItemLists", "2", "2b", "gone", "1")),
        setdata(3, number=...), setdata(4, TraitLists=...), setdata(5, characterLists=...), setdata(6, ScriptData={}), setdata(7, ScriptData=...), setdata(8, ScriptData={"SetName": Ent("Str", None, {})}),
        setdata(9, ItemLists=..., TraitLists=[], characterLists=refs("CharLists", "1")), setdata(0, characterLists=..., tftCharacterLists=refs("CharLists", "2b"), TraitLists=refs("TraitLists", "1")),
        shop("TFT_Ahri"), shop("tft_BRAUM", mRarity=4, mAbilityNameTra=..., mDescriptionTra=..., PcSplashPath=..., mIconPath=Ref("braum/old.dds"), AbilityIconPath=..., mPortraitIconPath="braum/portrait.dds", TeamPlannerPortraitPath=..., SquareSplashPath=...),
        shop("TFT_Template"), shop("TFT_NoFile"), shop("TFT_Old", mRarity=5, PcSplashPath="", mIconPath="old/text.dds"), shop("TFT_Named", mRarity=6), shop("TFT_Linked", PcSplashPath=..., AbilityIconPath=..., mDisplayNameTra=...), shop("TFT_NoSpell"), shop("TFT_NoRecord"),
        Ent("TFTCharacterRoleData", "Roles/Mage", {"name": "APCaster"}), Ent("Other", "Traits/Set1_A2", {"mName": "other"}),
    ]
    files = {
        "in/characters/tft_ahri.cdtb.bin": [spell("Wrong", mDataValues=variables(False, No=[1])), record("TFT_Ahri", tier=2, CharacterRole=Ref("Roles/Mage"), baseHPModifiable=Ent("M", None, {"BaseValue": 501}), baseDamageModifiable=Ent("M", None, {"BaseValue": 51}),
                                            baseArmorModifiable=Ent("M", None, {"BaseValue": 22}), baseMR=Ent("M", None, {"BaseValue": 23}), attackSpeedModifiable=Ent("M", None, {"BaseValue": 0.8}), attackRangeModifiable=Ent("M", None, {"BaseValue": 720}), mInitialMana=30,
                                            primaryAbilityResource=Ent("R", None, {str(0x726ee5cd): Ent("M", None, {"BaseValue": 60}), "arBase": 1})),
                                            spell("TFT_Ahri", DataValues=variables(True, Damage=[1, 2], Stun=[0]), mDataValues=variables(False, Old=[3]), mClientData=tooltip(keyName="kn", keyTooltip="kt")), spell("Later", "TFT_Ahri", DataValues=variables(True, Later=[9]))],
        "in/data/characters/tft_ahri/tft_ahri.bin": [record("Other file", tier=5)],
        "in/data/characters/tft_braum/tft_braum.bin": [record("TFT_Braum", mLinkedTraits=refs("Traits", "Set1_B", "Set1_A", "Set9_Unknown"), primaryAbilityResource=Ent("R", None, {"arBase": 80})), spell("TFT_Braum", mDataValues=variables(False, Shield=[3, 4]), mClientData=tooltip(keyName="bkn", keyTooltip="bkt")), record("Second")],
        "in/data/characters/tft_old/tft_old.bin": [Ent("TFTCharacterRecord", "Records/Old", {"mCharacterName": "TFT_Old", "spellNames": ["Characters/TFT_Old/Spells/OldSpell", "Other"], "primaryAbilityResource": Ent("R", None, {})}), spell("other", mDataValues=variables(False, No=[1])), spell("OLDSPELL", "x", mDataValues=variables(False, Yes=[1, 2, 3]))],
        "in/data/characters/tft_named/tft_named.bin": [record("TFT_Named", mLinkedTraits=[], tier=0, mInitialMana=0, attackRange=100, primaryAbilityResource=Ent("R", None, {str(0x726ee5cd): Ent("M", None, {}), "arBase": 1})), spell("Unrelated", mDataValues=variables(False, No=[1]))],
        "in/data/characters/tft_linked/tft_linked.bin": [record("TFT_Linked", mLinkedTraits=[Ent("L", None, {"TraitData": Ref("Traits/Set2_C"), "Other": Ref("Traits/Set1_A")}, True), Ent("L", None, {"Mask": 1}, True), Ent("L", None, {"TraitData": Ref("Traits/Set1_B")}, True)], spells=[Ref("")], attackRange=180), spell("", "", mDataValues=variables(False, No=[1]))],
        "in/data/characters/tft_nospell/tft_nospell.bin": [Ent("TFTCharacterRecord", "Records/No", {"mCharacterName": "TFT_NoSpell"})],
        "in/data/characters/tft_norecord/tft_norecord.bin": [record("x", "CharacterRecord"), spell("x")],
        "in/data/characters/tft_template/tft_template.bin": [record("TFT_Template"), spell("TFT_Template")],
    }
    return es, files


def older():
    """Before sets were described by TFTSetData."""
    es = [character("TFT_Ahri"), character("TFT_Zed"),
          trait("Set1_A", mTraitSets=[effects(mMinUnits=2, effectAmounts=amounts(AD=5))]), trait("Set1_B", mTraitSets=[]),
          listed("MapCharacterList", "CharLists/short", "Characters", refs("Characters", "TFT_Zed")), listed("MapCharacterList", "CharLists/long", "Characters", refs("Characters", "TFT_Zed", "TFT_Ahri")),
          listed("TftTraitList", "TraitLists/long", "mTraits", refs("Traits", "Set1_B", "Set1_A")), listed("TftTraitList", "TraitLists/short", "mTraits", refs("Traits", "Set1_A")),
          shop("TFT_Ahri"), item("TFT_Item_Sword", mId=1)]
    files = {"in/data/characters/tft_ahri/tft_ahri.bin": [record("TFT_Ahri"), spell("TFT_Ahri", mDataValues=variables(False, A=[1]))]}
    return es, files


# ---------------------------------------------------------------- what the data must be

def text(x):
    return None if x is None else x.attrs["str"] if isinstance(x, Ref) else str(x)


def want_effects(d):
    if "effectamounts" in d.data:
        return {text(e.getv("name")): e.getv("value") for e in d.getv("effectAmounts")}
    if "constants" in d.data:
        return {k: v.getv("mValue") for k, v in d.getv("constants").getv(0xdf085b93, {}).items()}
    return {}


def want_traits(es):
    out = {}
    for e in es:
        if e.attrs["type"] != "TftTraitData" or "Template" in e.getv("mName"):
            continue
        base = {}
        for s in e.getv("InnateTraitSets", []):
            base.update(want_effects(s))
        old = "mtraitsets" in e.data
        p = "m" if old else ""
        out[e.attrs["path"]] = {"apiName": e.getv("mName"), "name": e.getv("mDisplayNameTra"), "desc": e.getv("mDescriptionNameTra"), "icon": text(e.getv("mIconPath")),
                                "effects": [{"minUnits": s.getv(p + "MinUnits"), "maxUnits": s.getv(p + "MaxUnits") or 25000, "style": s.getv(p + "Style", 1), "variables": {**base, **want_effects(s)}} for s in e.getv("mTraitSets" if old else "mConditionalTraitSets", [])]}
    return out


def want_items(es):
    its = [e for e in es if e.attrs["type"] == "TftItemData" and "Template" not in e.getv("mName") and e.getv("mName") != "TFT_Item_Null"]
    by = {e.attrs["path"]: e for e in its}
    tr = {e.attrs["path"]: e.getv("mName") for e in es if e.attrs["type"] == "TftTraitData"}
    return [{"id": e.getv("mId"), "name": e.getv("mDisplayNameTra"), "apiName": e.getv("mName"), "desc": e.getv("mDescriptionNameTra"), "icon": text(e.getv("mIconPath")), "isAugment": e.getv("IsAugment", False), "unique": e.getv("mIsUnique", False),
             "composition": [by[h].getv("mName") for h in e.getv("mComposition", [])], "associatedTraits": [tr[h] for h in e.getv("AssociatedTraits", [])], "incompatibleTraits": [tr[h] for h in e.getv("IncompatibleTraits", [])],
             "effects": want_effects(e), "tags": [text(t) for t in e.getv("ItemTags", [])], "from": [by[h].getv("mId") for h in e.getv("mComposition", [])] if e.getv("mId") is not None else None} for e in its]


def want_champs(es, files, traits):
    out = {}
    roles = {e.attrs["path"]: e.getv("name") for e in es if e.attrs["type"] == "TFTCharacterRoleData"}
    for e in es:
        if e.attrs["type"] != "TftShopData":
            continue
        n = e.getv("mName").lower()
        f = next((files[p] for p in (f"in/characters/{n}.cdtb.bin", f"in/data/characters/{n}/{n}.bin") if p in files), None)
        rec = next((x for x in f or () if x.attrs["type"] == "TFTCharacterRecord"), None)
        if n == "tft_template" or rec is None or not ({"spells", "spellnames"} & set(rec.data)):
            continue
        spells = [x for x in f if x.attrs["type"] == "SpellObject"]
        if "spells" in rec.data:
            ref = next((x for x in rec.getv("spells") if x.h), None)
            ab = next((x for x in spells if ref is not None and x.attrs["path"] == ref), None)
        else:
            ab = next((x for x in spells if x.getv("mScriptName", "").lower() == rec.getv("spellNames")[0].rsplit("/", 1)[-1].lower()), None)
        vs, kn, kt = [], None, None
        if ab is not None:
            s = ab.getv("mSpell")
            vs = [{"name": v.getv("name", v.getv("mName")), "value": v.getv("values", v.getv("mValues"))} for v in s.getv("DataValues", s.getv("mDataValues", []))]
            if s.getv("mClientData"):
                keys = s.getv("mClientData").getv("mTooltipData").getv("mLocKeys")
                kn, kt = keys.get("keyName"), keys.get("keyTooltip")
        links = []
        for t in rec.getv("mLinkedTraits", []):
            links += [t.getv("TraitData")] if isinstance(t, Ent) and "traitdata" in t.data else [] if isinstance(t, Ent) else [t]
        cost = rec.getv("tier")
        if cost is None:
            cost = e.getv("mRarity", 0) + 1
            cost += int(cost / 6)
        new = lambda a, b: rec.getv(a).getv("BaseValue") if rec.getv(a) is not None else rec.getv(b)
        mana = 100
        res = rec.getv("primaryAbilityResource")
        if res is not None:
            m = res.getv(0x726ee5cd)
            mana = m.getv("BaseValue", 100) if m is not None else res.getv("arBase", 100)
        rng = rec.getv("attackRangeModifiable")
        role = rec.getv("CharacterRole")
        out[n] = {"apiName": e.getv("mName"), "characterName": rec.getv("mCharacterName"), "name": e.getv("mDisplayNameTra"), "cost": cost, "icon": text(e.getv("PcSplashPath") or e.getv("mIconPath")), "tileIcon": text(e.getv("TeamPlannerPortraitPath")), "squareIcon": text(e.getv("SquareSplashPath")),
                  "traits": [traits[h]["name"] for h in links if h in traits], "role": roles[role] if role is not None else None,
                  "stats": {"hp": new("baseHPModifiable", "baseHP"), "mana": mana, "initialMana": rec.getv("mInitialMana", 0), "damage": new("baseDamageModifiable", "BaseDamage"), "armor": new("baseArmorModifiable", "baseArmor"), "magicResist": new("baseMR", "baseSpellBlock"),
                            "critMultiplier": rec.getv("critDamageMultiplier"), "critChance": rec.getv("baseCritChance"), "attackSpeed": new("attackSpeedModifiable", "attackSpeed"), "range": (rng.getv("BaseValue", 0) if rng is not None else rec.getv("attackRange", 0)) // 180},
                  "ability": {"name": e.getv("mAbilityNameTra") or kn, "desc": e.getv("mDescriptionTra") or kt, "icon": text(e.getv("AbilityIconPath") or e.getv("mPortraitIconPath")), "variables": vs}}
    return out


def want_sets(es, traits, champs):
    names = {e.attrs["path"]: e.getv("name").lower() for e in es if e.attrs["type"] in ("Character", "TftCharacter")}
    kind = lambda *ks: {e.attrs["path"]: e for e in es if e.attrs["type"] in ks}
    chars, tls, ils, its = kind("MapCharacterList", "TftCharacterList"), kind("TftTraitList"), kind("TFTItemList"), kind("TftItemData")
    sets = [e for e in es if e.attrs["type"] == "TFTSetData"]
    first = lambda e: e.attrs["fields"][0].attrs["value"]
    if not sets:
        cl, tl = max(chars.values(), key=lambda e: len(first(e))), max(tls.values(), key=lambda e: len(first(e)))
        return [{"number": 1, "mutator": None, "name": "Base", "traits": [traits[t] for t in first(tl)], "champions": [champs[names[x]] for x in first(cl) if names[x] in champs], "augments": [], "items": []}]
    out = []
    for e in sets:
        cls = [*e.getv("characterLists", []), *e.getv("tftCharacterLists", [])]
        num, sd = e.getv("number"), e.getv("ScriptData", {})
        name = sd["SetName"].getv("mValue") if "SetName" in sd else None
        if not cls or e.getv("TraitLists") is None or num is None or name is None:
            continue
        members = [names[x] for l in cls if l in chars for x in chars[l].getv("Characters") if x in names]
        ts = []
        for l in e.getv("TraitLists"):
            for t in tls[l].getv("mTraits") if l in tls else ():
                if t in traits and t not in ts:
                    ts.append(t)
        ids = [its[x] for l in e.getv("ItemLists", []) if l in ils for x in ils[l].getv("mItems", []) if x in its]
        out.append({"number": num, "mutator": e.getv("Mutator") if e.getv("Mutator") is not None else e.getv("name"), "name": name, "traits": [traits[t] for t in ts], "champions": [champs[n] for n in members if n in champs],
                    "augments": sorted({x.getv("mName") for x in ids if x.getv("IsAugment")}), "items": sorted({x.getv("mName") for x in ids if not x.getv("IsAugment")})})
    return out


def unordered(traits):
    return sorted(traits, key=lambda t: str(t.get("apiName")) if isinstance(t, dict) else str(t))


# ---------------------------------------------------------------- checks

def difference(a, b, at=""):
    """Where two plain values differ first."""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool)):
        return f"{at or 'value'} is {str(a)[:60]!r}, not {str(b)[:60]!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{at} has the keys {sorted(map(str, set(a) ^ set(b)))[:6]} too many or too few"
        return next((d for k in b for d in [difference(a[k], b[k], f"{at}.{k}")] if d), None)
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{at} has {len(a)} elements, not {len(b)}"
        return next((d for k in range(len(b)) for d in [difference(a[k], b[k], f"{at}[{k}]")] if d), None)
    return None if a == b else f"{at} is {str(a)[:60]!r}, not {str(b)[:60]!r}"


def tft(c):
    try:
        k = c.prog.cls("tftdata.TftTransformer")
    except AnalysisBroken:
        c.r.und(SETS, "cdtb/tftdata.py", "TftTransformer not found")
        return
    f = k.method("build_template")
    if f is None:
        c.r.und(SETS, k.loc, "no build_template")
        return
    i = c.run(f, self_type=k, opaque=OPAQUE)
    parts = {t.args[0].args[0]: t.args[1] for t in i.result.args if t.op == "pair" and is_const(t.args[0])} if i.result.op == "dict" else {}
    for what, (es, files) in (("current data", modern()), ("data without set descriptions", older())):
        traits = want_traits(es)
        champs = want_champs(es, files, traits)
        sets = want_sets(es, traits, champs)
        for part, ob, want in (("items", ITEMS, want_items(es)), ("setData", SETS, sets), ("sets", SETS, {s["number"]: {n: s[n] for n in ("name", "traits", "champions")} for s in sets})):
            w = f"{f.loc} ({part})"
            if part not in parts:
                c.r.und(ob, w, f"{what}: the template is not a dictionary with {part}")
                continue
            try:
                world = World(i, es, files)
                got = world.sim.value(parts[part])
                if part == "items":
                    got = updated(world, i, got)
                got = plain(got)
            except Unknown:
                c.r.und(ob, w, f"{what}: not understood")
                continue
            except Fails:
                c.r.bad(ob, w, f"{what}: ends with an error")
                continue
            want = plain(want)
            if part == "setData" and isinstance(got, list):
                for s in (*got, *want):
                    if isinstance(s, dict) and isinstance(s.get("traits"), list):
                        s["traits"] = unordered(s["traits"])
            if part == "sets" and isinstance(got, dict):
                for s in (*got.values(), *want.values()):
                    if isinstance(s, dict) and isinstance(s.get("traits"), list):
                        s["traits"] = unordered(s["traits"])
            d = difference(got, want)
            ob = ob if d is None or part == "items" else CHAMPS if ".champions[" in d else TRAITS if ".traits[" in d else ob
            where = w
            c.r.ob(d is None, ob, where, f"{what}: {d}" if d else f"{what}: {len(want)} {part}")
            if d is None and part == "setData":
                c.r.ok(CHAMPS, f"{f.loc} ({part})", f"{what}: {len(champs)} champions")
                c.r.ok(TRAITS, f"{f.loc} ({part})", f"{what}: {len(traits)} traits")


def updated(world, i, items):
    """Items with what is set in them later."""
    items = [dict(x) for x in items if isinstance(x, dict)]
    before = [plain(x) for x in items]

    def on(e):
        if e.kind == "setitem" and e.recv is not None and e.loops:
            try:
                r = world.sim.value(e.recv)
            except Unknown:
                r = None
            if isinstance(r, dict) and "apiName" in r:
                for n, b in enumerate(before):
                    if b == plain(r) or b.get("apiName") == r.get("apiName"):
                        items[n][world.sim.value(e.args[0])] = world.sim.value(e.args[1])
    evs = [e for e in i.events if e.kind in ("setitem", "break") and (e.kind == "break" or e.recv is not None and e.recv.op in ("dict", "elem", "index", "val"))]
    evs = [e for e in evs if e.kind != "break" or any(x.loops[:len(e.loops)] == e.loops for x in evs if x.kind == "setitem")]
    world.sim.run([e for e in evs if e.kind == "setitem" and is_const(e.args[0]) or e.kind == "break"], on=on)
    return items


# ---------------------------------------------------------------- Arena

def augment(n, **kw):
    d = {"AugmentPlatformId": 7, "AugmentNameId": n, "NameTra": f"name_{n}", "DescriptionTra": f"desc_{n}", "AugmentTooltipTra": f"tip_{n}", "AugmentSmallIconPath": Ref(f"ASSETS/{n}_small.TEX"), "AugmentLargeIconPath": f"ASSETS/{n}_large.dds", "rarity": 2, **kw}
    return Ent("AugmentData", f"Augments/{n}", {k: v for k, v in d.items() if v is not ...})


def arena_data():
    calc = Obj("calculations", {"BinMap"}, values={"a": 1}, serial={"a": 1})
    return [augment("A", RootSpell=Ref("Spells/A")), augment("B", enabled=False), augment("C", enabled=True, rarity=..., AugmentSmallIconPath=..., RootSpell=Ref("Spells/C")), augment("D", AugmentLargeIconPath=..., NameTra=..., AugmentSmallIconPath=Ref("a.PNG")), augment("A"),
            Ent("SpellObject", "Spells/A", {"mSpell": Ent("Spell", None, {"mDataValues": variables(False, X=[4, 5], Y=[0]), "mSpellCalculations": calc})}), Ent("SpellObject", "Spells/C", {"mSpell": Ent("Spell", None, {"DataValues": variables(True, Z=[1, 2])})}),
            Ent("SpellObject", "Spells/E", {"mSpell": Ent("Spell", None, {})})]


def converted(p):
    if p is None:
        return None
    a, b = os.path.splitext(text(p).lower())
    return a + (".png" if b in (".dds", ".tex") else b)


def want_augments(es):
    sp = {e.attrs["path"]: e.getv("mSpell") for e in es if e.attrs["type"] == "SpellObject"}
    out = []
    for e in es:
        if e.attrs["type"] != "AugmentData" or not e.getv("enabled", True):
            continue
        s = sp.get(e.getv("RootSpell")) if e.getv("RootSpell") is not None else None
        values, calcs = {}, {}
        if s is not None:
            for v in s.getv("DataValues", s.getv("mDataValues", [])):
                values[v.getv("name", v.getv("mName"))] = v.getv("values", v.getv("mValues", [0])[0])
            if s.getv("mSpellCalculations") is not None:
                calcs = s.getv("mSpellCalculations").attrs["serial"]
        out.append({"id": e.getv("AugmentPlatformId"), "apiName": e.getv("AugmentNameId"), "name": e.getv("NameTra"), "desc": e.getv("DescriptionTra"), "tooltip": e.getv("AugmentTooltipTra"), "iconSmall": converted(e.getv("AugmentSmallIconPath")),
                    "iconLarge": converted(e.getv("AugmentLargeIconPath")), "rarity": e.getv("rarity", 0), "dataValues": values, "calculations": calcs})
    return out


def arena(c):
    try:
        k = c.prog.cls("arenadata.ArenaTransformer")
    except AnalysisBroken:
        c.r.und(AUGMENTS, "cdtb/arenadata.py", "ArenaTransformer not found")
        return
    f = k.method("build_template")
    if f is None:
        c.r.und(AUGMENTS, k.loc, "no build_template")
        return
    i = c.run(f, self_type=k, opaque=OPAQUE)
    parts = {t.args[0].args[0]: t.args[1] for t in i.result.args if t.op == "pair" and is_const(t.args[0])} if i.result.op == "dict" else {}
    w = f"{f.loc} (augments)"
    if "augments" not in parts:
        c.r.und(AUGMENTS, w, "the template is not a dictionary with augments")
        return
    es = arena_data()
    try:
        got = plain(World(i, es, {}, {"main": "in/data/maps/shipping/map30/map30.bin"}).sim.value(parts["augments"]))
    except Unknown:
        c.r.und(AUGMENTS, w, "not understood")
        return
    except Fails:
        c.r.bad(AUGMENTS, w, "ends with an error")
        return
    d = difference(got, plain(want_augments(es)))
    c.r.ob(d is None, AUGMENTS, w, d or f"{len(got)} augments")


# ---------------------------------------------------------------- missing values as text

def texts(c):
    for q in ("tftdata.TftTransformer", "arenadata.ArenaTransformer"):
        try:
            k = c.prog.cls(q)
        except AnalysisBroken:
            continue
        for n, f in sorted(k.methods.items()):
            if n.startswith("__") or n in ("export", "build_template"):
                continue
            i = c.run(f, self_type=k, opaque=OPAQUE)
            seen, found, count = set(), {}, [0]

            def walk(t, g):
                if (t, g) in seen or len(seen) > 20000:
                    return
                seen.add((t, g))
                if t.op == "ite":
                    walk(t.args[0], g)
                    walk(t.args[1], band(g, t.args[0]))
                    walk(t.args[2], band(g, bnot(t.args[0])))
                    return
                if t.op == "entry":
                    for x in t.args:
                        if isinstance(x, T):
                            walk(x, band(g, t.args[1]))
                    return
                if t.op == "cat" and len(t.args) == 1:
                    for h, x in tm.cases(t.args[0]):
                        if x.op == "call" and str(x.args[0]).endswith("BinObjectWithFields.getv") and (len([y for y in x.args[1:] if y.op != "uid"]) < 3 or x.args[3] is NONE):
                            if is_const(x.args[2]) and str(x.args[2].args[0]).lower().endswith("path"):
                                count[0] += 1
                                gh = strip_uid(band(g, h))
                                y = strip_uid(x)
                                if not implies(gh, bor(truth(y), bnot(cmp("is", y, NONE)))):
                                    found[y] = t
                for x in t.args:
                    if isinstance(x, T):
                        walk(x, g)
            walk(i.result, TRUE)
            for y in found:
                c.r.bad(TEXT, f"{f.loc} ({f.qual[5:]})", f"the text of {tm.show(y, 4)[-60:]}, which may be missing")
            if not found and count[0]:
                c.r.ok(TEXT, f"{f.loc} ({f.qual[5:]})", f"{count[0]} path(s)")

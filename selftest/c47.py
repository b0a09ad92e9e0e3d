T, A = "tftdata.py", "arenadata.py"
CASES = [
    # sets
    ("bad", T, '        for item in set_collection:\n            set_number = item.getv("number")', '        for item in set_collection[1:]:\n            set_number = item.getv("number")'),
    ("bad", T, '            if set_mutator is None:\n                set_mutator = item.getv("name")', '            if set_mutator is None:\n                set_mutator = item.getv("number")'),
    ("bad", T, 'item.getv("characterLists", []) + item.getv("tftCharacterLists", [])', 'item.getv("characterLists", []) or item.getv("tftCharacterLists", [])'),
    ("bad", T, '            if not char_lists:\n                continue', '            if not char_lists:\n                break'),
    ("bad", T, '            if set_trait_lists is None:\n                continue', '            if not set_trait_lists:\n                continue'),
    ("bad", T, '            if set_number is None or set_name is None:', '            if not set_number or set_name is None:'),
    ("bad", T, '            if set_number is None or set_name is None:', '            if set_number is None:'),
    ("bad", T, '            set_info = item.getv("ScriptData", {})', '            set_info = item.getv("ScriptData")'),
    ("bad", T, '                if char_list not in character_lists:\n                    continue', '                if char_list not in character_lists:\n                    break'),
    ("und", T, '                set_characters += [character_names[char]', '                set_characters = [character_names[char]'),
    ("bad", T, '.getv("Characters") if char in character_names]', '.getv("Characters")]'),
    ("bad", T, '                set_trait_paths += trait_lists[trait_list].getv("mTraits")', '                set_trait_paths = trait_lists[trait_list].getv("mTraits")'),
    ("bad", T, 'for path in set(set_trait_paths) if path in traits]', 'for path in set_trait_paths if path in traits]'),
    ("bad", T, '            set_augment_ids = set()\n            set_items_ids = set()\n', '            set_augment_ids = set_items_ids = set()\n'),
    ("bad", T, ['            set_augment_ids = set()\n            set_items_ids = set()\n', '        sets = []\n        for item in set_collection:'], ['', '        sets = []\n        set_augment_ids = set()\n        set_items_ids = set()\n        for item in set_collection:']),
    ("bad", T, '                    if item_entry not in item_entries:\n                        continue', '                    if item_entry not in item_entries:\n                        break'),
    ("bad", T, '            set_items = sorted(set_items_ids)', '            set_items = sorted(set_items_ids, reverse=True)'),
    ("bad", T, '                    if item_entries[item_entry].getv("IsAugment"):', '                    if "IsAugment" not in item_entries[item_entry]:'),
    ("bad", T, 'item_list_entry.getv("mItems", [])', 'item_list_entry.getv("mItems")'),
    ("bad", T, '            longest_trait_list = max(', '            longest_trait_list = min('),
    ("bad", T, 'x.type == "MapCharacterList" or x.type == "TftCharacterList"', 'x.type == "MapCharacterList"'),
    ("bad", T, '        return {x.path: x.getv("name").lower() for x', '        return {x.path: x.getv("name") for x'),
    ("bad", T, 'if x.type == "Character" or x.type == "TftCharacter"}', 'if x.type == "Character"}'),
    ("bad", T, 'for name in set_chars if name in champs]', 'for name in sorted(set_chars) if name in champs]'),
    ("bad", T, '                "augments": set_augments,\n                "items": set_items,', '                "augments": set_items,\n                "items": set_augments,'),
    ("bad", T, '            output_sets[set_number] = {', '            output_sets[set_mutator] = {'),
    # items
    ("bad", T, '            if "Template" in name or name == "TFT_Item_Null":', '            if "Template" in name or "Item_N" in name:'),
    ("bad", T, '            if "Template" in name or name == "TFT_Item_Null":\n                continue', '            if "Template" in name or name == "TFT_Item_Null":\n                break'),
    ("bad", T, '            if item["id"] is not None:', '            if item["id"]:'),
    ("bad", T, '[items_by_hash[h]["id"] for h in item["composition"]]', '[items_by_hash[h]["id"] for h in set(item["composition"])]'),
    ("bad", T, '            item["composition"] = [items_by_hash[h]["apiName"]', '            item["composition"] = [items_by_hash[h]["name"]'),
    ("bad", T, '            item["incompatibleTraits"] = [traits_by_hash[h] for h in item["incompatibleTraits"]]\n', '            item["incompatibleTraits"] = [traits_by_hash[h] for h in item["associatedTraits"]]\n'),
    ("bad", T, '            item["associatedTraits"] = [traits_by_hash[h] for h in item["associatedTraits"]]\n', ''),
    ("bad", T, '"icon": path_to_str(item.getv("mIconPath"))', '"icon": str(item.getv("mIconPath"))'),
    ("bad", T, '"tags": [str(x) for x in item.getv("ItemTags", [])]', '"tags": [x.s for x in item.getv("ItemTags", [])]'),
    ("bad", T, '"unique": item.getv("mIsUnique", False),', '"unique": item.getv("mIsUnique"),'),
    ("bad", T, '            items.append(item_data)\n', '            if item_data["icon"]:\n                items.append(item_data)\n'),
    # champions
    ("bad", T, 'champ.getv("PcSplashPath") or champ.getv("mIconPath")', 'champ.getv("PcSplashPath", champ.getv("mIconPath"))'),
    ("bad", T, '            if not os.path.exists(self_path):\n                continue\n\n            tft_bin', '            if not os.path.exists(self_path):\n                break\n\n            tft_bin'),
    ("bad", T, '            self_path = os.path.join(characters_dir, name + ".cdtb.bin")\n            if not os.path.exists(self_path):\n                self_path = ', '            self_path = os.path.join(data_characters_dir, name, name + ".bin")\n            if not os.path.exists(self_path):\n                self_path = '),
    ("bad", T, 'os.path.join(data_characters_dir, name, name + ".bin")', 'os.path.join(data_characters_dir, name + ".bin")'),
    ("bad", T, 'next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})', 'next((x for x in tft_bin.entries), {})'),
    ("bad", T, 'next((x for x in tft_bin.entries if x.type == "TFTCharacterRecord"), {})', '[x for x in tft_bin.entries if x.type == "TFTCharacterRecord"][0]'),
    ("bad", T, 'next((s for s in record.getv("spells") if s.h != 0), None)', 'next((s for s in record.getv("spells")), None)'),
    ("bad", T, 'spell_name = spell_name.rsplit("/", 1)[-1].lower()', 'spell_name = spell_name.rsplit("/", 1)[-1]'),
    ("bad", T, '.getv("mScriptName", "").lower() == sn', '.getv("mScriptName", "") == sn'),
    ("bad", T, 'if field.name == "TraitData")', ')'),
    ("bad", T, '                    champ_traits.append(trait.h)', '                    champ_traits.append(trait)\n                    break'),
    ("bad", T, '                        spell_key_tooltip = loc_keys.get("keyTooltip")\n                    break', '                        spell_key_tooltip = loc_keys.get("keyTooltip")'),
    ("bad", T, '                if entry.type == "SpellObject" and spell_match(entry):', '                if entry.type == "SpellObject":'),
    ("bad", T, 'value.getv("values", value.getv("mValues"))} for value in ability', 'value.getv("mValues")} for value in ability'),
    ("bad", T, '            if cost is None:', '            if not cost:'),
    ("bad", T, 'cost = rarity + int(rarity / 6)', 'cost = rarity + int(rarity / 5)'),
    ("bad", T, 'champ.getv("mRarity", 0) + 1', 'champ.getv("mRarity", 1)'),
    ("bad", T, 'if role_key is not None else None', 'if role_key in role_entries else ""'),
    ("bad", T, 'ability_resource_info.getv("arBase", 100)\n            else:\n                mana = 100', 'ability_resource_info.getv("arBase", 100)\n            else:\n                mana = 0'),
    ("bad", T, 'mana_struct.getv("BaseValue", 100) if', 'mana_struct.getv("BaseValue") if'),
    ("bad", T, 'champ.getv("mAbilityNameTra") or spell_key_name', 'spell_key_name or champ.getv("mAbilityNameTra")'),
    ("bad", T, '(mr_struct := record.getv("baseMR")) is not None else record.getv("baseSpellBlock")', '(mr_struct := record.getv("baseMR")) is not None else record.getv("baseArmor")'),
    ("bad", T, 'record.getv("attackRange", 0)) // 180', 'record.getv("attackRange", 0)) / 180'),
    ("bad", T, '"initialMana": record.getv("mInitialMana", 0)', '"initialMana": record.getv("mInitialMana") or 100'),
    ("bad", T, '[traits[h]["name"] for h in champ_traits if h in traits]', '[traits[h]["apiName"] for h in champ_traits if h in traits]'),
    # traits
    ("bad", T, '                base_effects |= collect_effects(trait_set)', '                base_effects = collect_effects(trait_set)'),
    ("bad", T, '"variables": base_effects | collect_effects(trait_set),', '"variables": collect_effects(trait_set) | base_effects,'),
    ("bad", T, ['            base_effects = {}\n', '        traits = {}\n        for trait in trait_entries:'], ['', '        traits = {}\n        base_effects = {}\n        for trait in trait_entries:']),
    ("bad", T, 'trait_set.getv(field_prefix + "MaxUnits") or 25000', 'trait_set.getv(field_prefix + "MaxUnits", 25000)'),
    ("bad", T, 'trait_set.getv(field_prefix + "Style", 1)', 'trait_set.getv("mStyle", 1)'),
    ("bad", T, "                field_prefix = ''", "                field_prefix = 'm'"),
    ("bad", T, '            if "Template" in trait.getv("mName"):\n                continue', '            if "Template" in trait.getv("mName"):\n                break'),
    ("ok", T, '    elif "constants" in data:', '    if "constants" in data:'),
    ("bad", T, '.getv(0xdf085b93, {}).items()}', '.getv(0xdf085b93).items()}'),
    # Arena
    ("bad", A, '            if not augment.getv("enabled", True):', '            if not augment.getv("enabled"):'),
    ("bad", A, '            if not augment.getv("enabled", True):\n                continue', '            if not augment.getv("enabled", True):\n                break'),
    ("bad", A, ['            augment_datavalues = {}\n', '        augments = []\n'], ['', '        augments = []\n        augment_datavalues = {}\n']),
    ("bad", A, 'return None if path is None else convert_cdragon_path(str(path))', 'return convert_cdragon_path(str(path))'),
    ("bad", A, 'augment_spell.getv("DataValues", augment_spell.getv(\'mDataValues\', []))', 'augment_spell.getv("DataValues", [])'),
    ("bad", A, '"rarity": augment.getv("rarity", 0)', '"rarity": augment.getv("rarity")'),
    ("bad", A, '.to_serializable()[1]', '.to_serializable()'),
    ("bad", A, '            if augment_spellobject:', '            if augment_spellobject is None:'),
    ("bad", A, 'convert_path(augment.getv("AugmentLargeIconPath"))', 'convert_path(augment.getv("AugmentSmallIconPath"))'),
    # same behaviour
    ("ok", T, '            if set_mutator is None:\n                set_mutator = item.getv("name")', '            set_mutator = item.getv("name") if set_mutator is None else set_mutator'),
    ("ok", T, '            set_mutator = item.getv("Mutator")\n            if set_mutator is None:\n                set_mutator = item.getv("name")', '            set_mutator = item.getv("Mutator", item.getv("name"))'),
    ("ok", T, 'for path in set(set_trait_paths) if path in traits]', 'for path in dict.fromkeys(set_trait_paths) if path in traits]'),
    ("ok", T, '                set_characters += [character_names[char] for char in character_lists[char_list].getv("Characters") if char in character_names]', '                for char in character_lists[char_list].getv("Characters"):\n                    if char in character_names:\n                        set_characters.append(character_names[char])'),
    ("ok", T, '                if char_list not in character_lists:\n                    continue\n                set_characters += [', '                if char_list in character_lists:\n                    set_characters += ['),
    ("ok", T, '            set_augments = sorted(set_augment_ids)\n            set_items = sorted(set_items_ids)\n', '            set_items = sorted(set_items_ids)\n            set_augments = list(set_augment_ids)\n            set_augments.sort()\n'),
    ("ok", T, '            if item["id"] is not None:\n                # patchs < 13.5: mId exist and "from" is a list of those IDs\n                item["from"] = [items_by_hash[h]["id"] for h in item["composition"]]\n            else:\n                item["from"] = None', '            item["from"] = None if item["id"] is None else [items_by_hash[h]["id"] for h in item["composition"]]'),
    ("ok", T, '            item["incompatibleTraits"] = [traits_by_hash[h] for h in item["incompatibleTraits"]]\n            item["associatedTraits"] = [traits_by_hash[h] for h in item["associatedTraits"]]\n', '            for k in ("incompatibleTraits", "associatedTraits"):\n                item[k] = [traits_by_hash[h] for h in item[k]]\n'),
    ("ok", T, '                    break\n            else:\n                ability_variables = []\n', '                    break\n'.replace("break", "break") + '            else:\n                ability_variables = list()\n'),
    ("ok", T, ['            spell_key_name = None\n', '            else:\n                ability_variables = []\n'], ['            ability_variables = []\n            spell_key_name = None\n', '']),
    ("ok", T, '            if not os.path.exists(self_path):\n                self_path = os.path.join(data_characters_dir, name, name + ".bin")\n            if not os.path.exists(self_path):\n                continue\n', '            candidates = [self_path, os.path.join(data_characters_dir, name, name + ".bin")]\n            self_path = next((x for x in candidates if os.path.exists(x)), None)\n            if self_path is None:\n                continue\n'),
    ("ok", T, '                rarity = champ.getv("mRarity", 0) + 1\n                cost = rarity + int(rarity / 6)', '                rarity = champ.getv("mRarity", 0) + 1\n                cost = rarity + rarity // 6'),
    ("ok", T, '                if isinstance(trait, BinEmbedded):\n                    champ_traits.extend(field.value for field in trait.fields if field.name == "TraitData")\n                else:\n                    champ_traits.append(trait.h)', '                if not isinstance(trait, BinEmbedded):\n                    champ_traits.append(trait.h)\n                    continue\n                for field in trait.fields:\n                    if field.name == "TraitData":\n                        champ_traits.append(field.value)'),
    ("ok", T, '                base_effects |= collect_effects(trait_set)', '                base_effects.update(collect_effects(trait_set))'),
    ("ok", T, '            if "Template" in trait.getv("mName"):\n                continue\n\n', '            api_name = trait.getv("mName")\n            if "Template" in api_name:\n                continue\n'),
    ("ok", T, '            effects = []\n            if "mTraitSets"', '            effects = list()\n            if "mTraitSets"'),
    ("ok", T, '                "variables": base_effects | collect_effects(trait_set),', '                "variables": {**base_effects, **collect_effects(trait_set)},'),
    ("ok", T, 'path_to_str(champ.getv("PcSplashPath") or champ.getv("mIconPath"))', 'path_to_str(champ.getv("PcSplashPath") if champ.getv("PcSplashPath") else champ.getv("mIconPath"))'),
    ("ok", A, '            if not augment.getv("enabled", True):\n                continue', '            enabled = augment.getv("enabled", True)\n            if not enabled:\n                continue'),
    ("ok", A, "                if augment_spell.get('mSpellCalculations'):\n                    augment_calculations = augment_spell.get('mSpellCalculations').to_serializable()[1]", "                calculations = augment_spell.get('mSpellCalculations')\n                if calculations is not None:\n                    augment_calculations = calculations.to_serializable()[1]"),
    ("ok", A, 'return None if path is None else convert_cdragon_path(str(path))', 'if path is None:\n                return None\n            return convert_cdragon_path(str(path))'),
]

F = "rads.py"
CASES = [
    ("bad", F, 'assert lines[0] == "RADS Solution Manifest", "unexpected solutionmanifest magic line"', "pass"),
    ("bad", F, 'assert lines[1] == "1.0.0.0", "unexpected solutionmanifest version"', "pass"),
    ("bad", F, 'assert lines[2] == self.solution.name, "solution name mismatch in solutionmanifest header"', "pass"),
    ("bad", F, 'assert lines[3] == self.version, "solution version mismatch in solutionmanifest header"', "pass"),
    ("bad", F, "(name, version, unk1, unk2), idx = lines[idx:idx+4], idx + 4", "(version, name, unk1, unk2), idx = lines[idx:idx+4], idx + 4"),
    ("bad", F, "            if unk1 == 0:\n                required_projects.append(name)\n            else:\n                assert unk1 == 10\n", "            required_projects.append(name)\n"),
    ("bad", F, "            if unk1 == 0:\n                required_projects.append(name)\n            else:\n                assert unk1 == 10\n", "            if unk1 == 10:\n                required_projects.append(name)\n            else:\n                assert unk1 == 0\n"),
    ("bad", F, "deps, idx = lines[idx:idx+ndeps], idx + ndeps", "deps, idx = lines[idx:idx+ndeps], idx + ndeps + 1"),
    ("bad", F, "deps, idx = lines[idx:idx+ndeps], idx + ndeps", "deps, idx = lines[idx:idx+ndeps-1], idx + ndeps"),
    ("bad", F, "langs[Language(lang)] = [projects[name] for name in deps]", "langs[Language(lang)] = [projects[name] for name in deps if name not in required_projects]"),
    ("bad", F, "langs[None] = list(projects[name] for name in required_projects)", "langs[None] = list(projects.values())"),
    ("bad", F, "langs[None] = list(projects[name] for name in required_projects)\n        return langs", "return langs"),
    ("bad", F, "        nlangs, idx = int(lines[idx]), idx + 1\n", "        nlangs, idx = int(lines[idx]) - 1, idx + 1\n"),
    ("bad", F, "RadsProjectVersion(RadsProject(self.solution.storage, name), RadsVersion(version))", "RadsProjectVersion(RadsProject(self.solution.storage, name), self.version)"),
    ("bad", F, "path, self.package, offset, size, typ = line.split(',')", "path, self.package, size, offset, typ = line.split(',')"),
    ("bad", F, "self.path = path[1:]", "self.path = path"),
    ("bad", F, "self.path = path[1:]", "self.path = path.lstrip('/').lower()"),
    ("bad", F, "self.extract_path = self.path[:-11]", "self.extract_path = self.path.replace('.compressed', '')"),
    ("bad", F, "self.extract_path = self.path[:-11]", "self.extract_path = self.path[:-10]"),
    ("bad", F, "self.compressed = self.path.endswith('.compressed')", "self.compressed = self.path.endswith('compressed')"),
    ("bad", F, "            assert line.startswith('PKG1'), \"unexpected packagemanifest magic line\"\n", ""),
    ("bad", F, "            line = f.readline()\n            assert line.startswith('PKG1'), \"unexpected packagemanifest magic line\"\n", "            lines = iter(f)\n            assert next(lines).startswith('PKG1')\n            f.readline()\n"),
    ("bad", F, "return sorted(RadsSolutionVersion(self, RadsVersion(l)) for l in listing)", "return sorted(RadsSolutionVersion(self, RadsVersion(l)) for l in listing[1:])"),
    ("bad", F, "return [RadsProjectVersion(self, RadsVersion(l)) for l in listing.splitlines()]", "return [RadsProjectVersion(self, RadsVersion(l)) for l in listing.splitlines()[:1]]"),
    ("ok", F, "        for _ in range(nprojects):\n            (name, version, unk1, unk2), idx = lines[idx:idx+4], idx + 4\n", "        for _ in range(nprojects):\n            name, version, unk1, unk2 = lines[idx:idx+4]\n            idx += 4\n"),
    ("ok", F, "            langs[Language(lang)] = [projects[name] for name in deps]\n", "            found = []\n            for name in deps:\n                found.append(projects[name])\n            langs[Language(lang)] = found\n"),
    ("ok", F, 'assert lines[0] == "RADS Solution Manifest", "unexpected solutionmanifest magic line"', 'if lines[0] != "RADS Solution Manifest":\n            raise ValueError("bad magic")'),
    ("ok", F, "        self.compressed = self.path.endswith('.compressed')\n        if self.compressed:\n            self.extract_path = self.path[:-11]  # remove the '.compressed' suffix\n        else:\n            self.extract_path = self.path\n", "        self.extract_path = self.path.removesuffix('.compressed')\n        self.compressed = self.extract_path != self.path\n"),
    ("ok", F, "            for line in f:\n                yield cls(line)\n", "            for line in f.read().splitlines():\n                yield cls(line)\n"),
    ("ok", F, "            for line in f:\n                yield cls(line)\n", "            yield from (cls(line) for line in f)\n"),
]

// PBT-SOURCES: Matrix.cpp PsimagLite.cpp Ainur/AinurSpirit.cpp Ainur/AinurConvert.cpp
// PBT-DEFS: -DUSE_BOOST
// PBT-QUICK: 300000
// PBT-THOROUGH: 8000000
// PBT-RULE: a case writes a program of generated declarations and assignments (all value kinds and spellings, free layout, comments, prefixes) and reads its labels in a generated order into used targets;
// PBT-RULE: non-trivial = two or more labels, one of them a vector, matrix or reassigned
#include "ainurg.h"
using namespace ag;

PROP(program, 6)
{
	Program p = program(c, 8);
	DESC(p.text);
	Quiet quiet;
	Ainur a(p.text);
	size_t n = p.vars.size();
	bool comp = false;
	for (auto& v : p.vars)
		comp |= v.hasValue && v.v.kind >= VINT;
	if (n > 1 && comp)
		c.nontrivial();
	std::vector<bool> read(n, false);
	for (size_t k = c.range(1, n + 2); k > 0; --k) {
		size_t i = c.below(n);
		Var& v = p.vars[i];
		// a prefix is put before the label
		size_t cut = c.chance(1, 4) ? c.below(v.name.size() + 1) : 0;
		a.prefix() = v.name.substr(0, cut);
		c.labelIf(cut > 0, "prefixed read");
		std::string label = v.name.substr(cut);
		if (!v.hasValue) {
			std::string s;
			CHECK(pbt::throws([&] { a.readValue(s, label); }), "reading " << v.name << ", which has no value, gave {" << s << "}");
			continue;
		}
		c.label(kindName[v.v.kind]);
		readAndCheck(c, a, label, v.v);
		read[i] = true;
	}
	a.prefix() = "";

	std::string want;
	std::map<std::string, std::string> wantMap;
	wantMap["AinurFromFile"] = "!AinurFromFile";
	for (size_t i = 0; i < n; ++i) {
		if (p.vars[i].flagged && !read[i])
			want += p.vars[i].name + "\n";
		else
			wantMap[p.vars[i].name] = p.vars[i].hasValue ? p.vars[i].v.text : std::string(1, '\0');
	}
	if (want.size())
		want = "Unused keys:\n" + want;
	std::ostringstream os;
	a.printUnused(os);
	CHECK(os.str() == want, "printUnused says {" << os.str() << "} and should say {" << want << "}");
	std::map<std::string, std::string> m;
	a.setMap(m);
	for (auto& kv : wantMap)
		CHECK(m.count(kv.first) && m[kv.first] == kv.second, "setMap has {" << m[kv.first] << "} for " << kv.first << " and should have {" << kv.second << "}");
	CHECK(m.size() == wantMap.size(), "setMap has " << m.size() << " labels and should have " << wantMap.size());
	std::ostringstream all;
	a.printAll(all);
	for (auto& v : p.vars)
		if (v.hasValue) {
			std::string line = v.type + " " + v.name + " " + v.v.text + "\n";
			CHECK(("\n" + all.str()).find("\n" + line) != std::string::npos, "printAll lacks {" << line << "}: " << all.str());
		}
}

// the same statements in two layouts give the same values
PROP(layout, 2)
{
	Value v = value(c, (int)c.below(NKINDS));
	std::string name = identifier(c), type = typeName(c), other = identifier(c);
	if (name == other || name == "AinurFromFile" || other == "AinurFromFile")
		return;
	std::string one = type + " " + name + "=" + v.text;
	std::string two = gap(c) + type + gap(c, true) + name + gap(c);
	if (c.flip()) {
		two += ";" + gap(c) + name + gap(c) + "=" + gap(c) + v.text;
		c.label("declared and assigned separately");
	} else {
		two += "=" + gap(c) + v.text;
	}
	two += blanks(c, 2) + ";" + gap(c) + type + gap(c, true) + other + gap(c);
	if (c.flip())
		two += ";" + gap(c);
	DESC(one << " ---- " << two);
	if (v.kind >= VINT)
		c.nontrivial();
	c.label(kindName[v.kind]);
	Quiet quiet;
	Ainur a(one), b(two);
	readAndCheck(c, a, name, v);
	readAndCheck(c, b, name, v);
	readAndCheck(c, b, name, v);
}

PINNED(only_comments)
{
	Quiet quiet;
	for (const char* s : { "", " ", "\n", "# nothing", "# nothing\n", "##Ainur1.0\n\n", " \t\r\n# a\n # b\n" }) {
		Ainur a { std::string(s) };
		int x = 0;
		CHECK(pbt::throws([&] { a.readValue(x, "x"); }), "a label was read from {" << s << "}");
	}
}
PBT_MAIN

// C16: XML import never corrupts: a valid net or a clean exception.
#include "apimodel.h"
#include "PTN_Engine/ImportExport/FileExporterFactory.h"
#include "PTN_Engine/ImportExport/FileImporterFactory.h"
#include "PTN_Engine/ImportExport/IFileExporter.h"
#include "PTN_Engine/ImportExport/IFileImporter.h"
#include <fstream>
#include <unistd.h>

const char *vh_property = "C16";
using namespace api;

namespace
{
const std::vector<std::string> fnNames = { "dial", "hang up", "a<&>\"b", "action4", "\xC3\xA9t\xC3\xA9" };
const std::vector<std::string> condNames = { "ready", "c2", "c 3", "c&4", "c5" };

std::string esc(const std::string &s)
{
	std::string o;
	for (char ch : s)
		switch (ch)
		{
		case '<': o += "&lt;"; break;
		case '>': o += "&gt;"; break;
		case '&': o += "&amp;"; break;
		case '"': o += "&quot;"; break;
		default: o += ch;
		}
	return o;
}

//! A document of the schema with its meaning, possibly with one defect.
struct Doc
{
	std::string text;
	bool valid = true;      //!< must be imported, as `net`
	bool mustThrow = false; //!< has a defect that breaks a construction rule
	std::string defect;
	Model net;              //!< without function ids
};

Doc grammar(Rng &r, int defect)
{
	Doc d;
	std::ostringstream o;
	auto ws = [&] { static const char *w[] = { "", "\n", "\n\t\t", " ", "<!-- <Place name=\"no\"/> -->", "\r\n" }; o << w[r.below(r.chance(1, 3) ? 6 : 2)]; };
	const int nP = 1 + (int)r.below(r.chance(1, 20) ? 60 : 6), nT = (int)r.below(r.chance(1, 20) ? 40 : 5);
	static const size_t edges[] = { 1, 2, 255, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, SIZE_MAX };
	auto num = [&](bool small) -> size_t { return !small && r.chance(1, 4) ? edges[r.below(8)] : 1 + r.below(3); };
	std::vector<std::string> P, T;
	for (int i = 0; i < nP; ++i) P.push_back((r.chance(1, 6) ? "p<&>\" " : "p") + std::to_string(i));
	for (int i = 0; i < nT; ++i) T.push_back((r.chance(1, 6) ? "t\xE2\x82\xAC" : "t") + std::to_string(i));
	static const char *modes[] = { "SINGLE_THREAD", "EVENT_LOOP", "DETACHED", "JOB_QUEUE" };
	const int mode = (int)r.below(4);
	d.net.mode = (Mode)mode;
	auto bad = [&](int k, const char *what)
	{
		if (defect != k) return false;
		d.valid = false;
		d.mustThrow = true;
		d.defect = what;
		defect = -1;
		return true;
	};
	if (r.chance(1, 2)) o << "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>";
	ws();
	o << "<PTN-Engine version=\"3.0\" format=\"1\" name=\"x\"";
	if (bad(0, "unknown thread option")) o << " actionsThreadOption=\"" << (r.chance(1, 3) ? "" : r.chance(1, 2) ? "job_queue" : "JOB_QUEUE2") << "\"";
	else if (bad(1, "no thread option")) ;
	else o << " actionsThreadOption=\"" << modes[mode] << "\"";
	o << ">";
	ws();
	o << "<Places>";
	for (auto &p : P)
	{
		MPlace q;
		ws();
		std::string name = p;
		if (&p != &P[0] && bad(2, "repeated place")) name = P[0];
		if (bad(3, "empty place name")) name = "";
		std::vector<std::string> at;
		if (name != "" || r.chance(1, 2)) at.push_back("name=\"" + esc(name) + "\"");
		if (r.chance(3, 4))
		{
			q.tokens = r.chance(1, 3) ? 0 : num(false);
			at.push_back("tokens=\"" + std::to_string(q.tokens) + "\"");
		}
		if (r.chance(1, 2))
		{
			q.input = r.chance(1, 2);
			at.push_back(std::string("input=\"") + (q.input ? "true" : "false") + "\"");
		}
		if (r.chance(1, 2))
		{
			q.enterName = r.chance(1, 4) ? "" : fnNames[r.below(fnNames.size())];
			if (bad(4, "unregistered action")) q.enterName = "no such action";
			at.push_back("onEnterAction=\"" + esc(q.enterName) + "\"");
		}
		if (r.chance(1, 2))
		{
			q.exitName = r.chance(1, 4) ? "" : fnNames[r.below(fnNames.size())];
			if (bad(5, "unregistered exit action")) q.exitName = "no such action";
			at.push_back("onExitAction=\"" + esc(q.exitName) + "\"");
		}
		r.shuffle(at);
		o << "<Place";
		for (auto &s : at) o << " " << s;
		if (r.chance(1, 3)) o << "></Place>";
		else o << "/>";
		d.net.places[p] = q;
	}
	ws();
	o << "</Places>";
	ws();
	o << "<Transitions>";
	struct A { std::string p, t; Type ty; size_t w; };
	std::vector<A> arcs;
	for (auto &t : T)
	{
		MTrans q;
		ws();
		o << "<Transition>";
		std::string name = t;
		if (&t != &T[0] && bad(6, "repeated transition")) name = T[0];
		if (bad(7, "empty transition name")) name = "";
		std::vector<std::string> parts;
		parts.push_back(name.empty() && r.chance(1, 2) ? "" : "<Name value=\"" + esc(name) + "\"/>");
		if (r.chance(2, 3))
		{
			std::string s = "<ActivationConditions>";
			for (int k = (int)r.below(4); k > 0; --k)
			{
				auto c = condNames[r.below(condNames.size())];
				if (std::ranges::count(q.condNames, c)) continue;
				if (bad(8, "unregistered condition")) c = r.chance(1, 2) ? "" : "no such condition";
				q.condNames.push_back(c);
				s += "<ActivationCondition name=\"" + esc(c) + "\"/>";
			}
			parts.push_back(s + "</ActivationConditions>");
		}
		auto list = [&](const char *outer, const char *inner, MArcs &m)
		{
			if (r.chance(1, 2)) return;
			std::string s = std::string("<") + outer + ">";
			for (int k = (int)r.below(4); k > 0; --k)
			{
				std::string p = r.pick(P);
				bool again = false;
				if (m.contains(p))
				{
					if (!bad(9, "repeated arc")) continue;
					again = true;
				}
				size_t w = num(false);
				if (bad(10, "arc to unknown place")) p = "nowhere";
				if (bad(11, "zero weight")) w = 0;
				s += std::string("<") + inner + " name=\"" + esc(p) + "\"";
				if (w != 1 || r.chance(1, 2)) s += " weight=\"" + std::to_string(w) + "\"";
				s += "/>";
				if (!again) m[p] = w;
			}
			parts.push_back(s + "</" + outer + ">");
		};
		list("ActivationPlaces", "ActivationPlace", q.act);
		list("DestinationPlaces", "DestinationPlace", q.dest);
		list("InhibitorPlaces", "InhibitorPlace", q.inh);
		q.reqNo = r.chance(1, 2);
		if (bad(12, "no RequireNoActionsInExecution")) ;
		else parts.push_back(std::string("<RequireNoActionsInExecution value=\"") + (bad(13, "odd boolean") ? "maybe" : q.reqNo ? "true" : "false") + "\"/>");
		r.shuffle(parts);
		for (auto &s : parts)
		{
			o << s;
			ws();
		}
		o << "</Transition>";
		// more arcs in the section of arcs
		for (int k = (int)r.below(5); k > 0; --k)
		{
			static const Type ty[] = { Type::ACTIVATION, Type::DESTINATION, Type::INHIBITOR, Type::BIDIRECTIONAL };
			A a{ r.pick(P), t, ty[r.below(4)], num(false) };
			bool exists = (a.ty == Type::ACTIVATION || a.ty == Type::BIDIRECTIONAL) && q.act.contains(a.p);
			exists = exists || ((a.ty == Type::DESTINATION || a.ty == Type::BIDIRECTIONAL) && q.dest.contains(a.p));
			exists = exists || (a.ty == Type::INHIBITOR && q.inh.contains(a.p));
			if (exists)
			{
				if (!bad(14, "arc exists already")) continue;
				arcs.push_back(a);
				continue;
			}
			if (a.ty == Type::ACTIVATION && r.chance(1, 5)) a.w = 0;
			else if (a.ty != Type::ACTIVATION && bad(15, "zero weight in section of arcs")) a.w = 0;
			if (bad(16, "arc of unknown place")) a.p = r.chance(1, 2) ? "" : "nowhere";
			if (bad(17, "arc of unknown transition")) a.t = r.chance(1, 2) ? "" : "nowhere";
			arcs.push_back(a);
			if (a.ty == Type::ACTIVATION || a.ty == Type::BIDIRECTIONAL) q.act[a.p] = a.w;
			if (a.ty == Type::DESTINATION || a.ty == Type::BIDIRECTIONAL) q.dest[a.p] = a.w;
			if (a.ty == Type::INHIBITOR) q.inh[a.p] = a.w;
		}
		d.net.trans[t] = q;
	}
	ws();
	o << "</Transitions>";
	ws();
	if (!arcs.empty() || r.chance(1, 2))
	{
		r.shuffle(arcs);
		o << "<Arcs>";
		for (auto &a : arcs)
		{
			std::string ty = a.ty == Type::ACTIVATION ? "Activation" : a.ty == Type::DESTINATION ? "Destination" : a.ty == Type::INHIBITOR ? "Inhibitor" : "Bidirectional";
			std::string w = std::to_string(a.w);
			if (bad(18, "unknown arc type")) ty = r.chance(1, 3) ? "" : r.chance(1, 2) ? "activation" : "Reset";
			if (bad(19, "weight is no number")) w = r.chance(1, 3) ? "" : r.chance(1, 2) ? "many" : "-1";
			if (bad(20, "weight out of range")) w = r.chance(1, 2) ? "18446744073709551616" : "99999999999999999999999999";
			std::vector<std::string> parts = { "<Place value=\"" + esc(a.p) + "\"/>", "<Transition value=\"" + esc(a.t) + "\"/>", "<Weight value=\"" + w + "\"/>", "<Type value=\"" + ty + "\"/>" };
			r.shuffle(parts);
			ws();
			o << "<Arc>";
			for (auto &s : parts) o << s;
			o << "</Arc>";
		}
		o << "</Arcs>";
	}
	ws();
	o << "</PTN-Engine>";
	d.text = o.str();
	if (defect >= 0) defect = -1; // had no place to go
	return d;
}

std::string mutate(std::string s, Rng &r, const std::string &other)
{
	static const char *words[] = { "<", ">", "\"", "'", "&", "&#0;", "&#x110000;", "]]>", "<![CDATA[", "<!--", "-->", "<?xml", "\0", "-1", "0", "18446744073709551615", "18446744073709551616", "1e9", " ", "true", "TRUE",
								   "Bidirectional", "Inhibitor", "<Arcs>", "</Arcs>", "<Places>", "<Place/>", "<Transition/>", "<Arc/>", "name=\"\"", "weight=\"0\"", "weight=\"-5\"", "tokens=\"99999999999999999999999\"", "\xff\xfe", "\xef\xbb\xbf", "SINGLE_THREAD",
								   "<PTN-Engine/>", "</PTN-Engine>", "<!DOCTYPE a [<!ENTITY b \"c\">]>" };
	for (int k = 1 + (int)r.below(r.chance(1, 3) ? 12 : 3); k > 0; --k)
	{
		if (s.empty()) s = "<";
		const size_t at = r.below(s.size()), len = std::min(s.size() - at, (size_t)r.below(r.chance(1, 4) ? 400 : 12));
		switch (r.below(11))
		{
		case 0: s[at] = (char)r.next(); break;
		case 1: s.erase(at, len); break;
		case 2: s.insert(at, s.substr(r.below(s.size()), len)); break;
		case 3: s.resize(at); break;
		case 4:
		case 5:
		{
			const char *w = words[r.below(std::size(words))];
			s.replace(at, r.chance(1, 2) ? len : 0, *w ? std::string(w) : std::string(1, '\0'));
			break;
		}
		case 6:
		{
			// a whole element again, or gone
			const size_t b = s.find('<', at), e2 = b == s.npos ? b : s.find('>', b);
			if (e2 == s.npos) break;
			const auto el = s.substr(b, e2 - b + 1);
			if (r.chance(1, 2)) s.insert(b, el);
			else s.erase(b, el.size());
			break;
		}
		case 7:
		{
			// another value of an attribute
			const size_t b = s.find("=\"", at), e2 = b == s.npos ? b : s.find('"', b + 2);
			if (e2 == s.npos) break;
			std::string v = words[r.below(std::size(words))];
			if (r.chance(1, 2)) v = s.substr(b + 2, e2 - b - 2) + v;
			if (r.chance(1, 3))
			{
				const size_t b2 = s.find("=\"", r.below(s.size())), e3 = b2 == s.npos ? b2 : s.find('"', b2 + 2);
				if (e3 != s.npos) v = s.substr(b2 + 2, e3 - b2 - 2);
			}
			s.replace(b + 2, e2 - b - 2, v);
			break;
		}
		case 8: s.insert(at, std::string(r.below(r.chance(1, 10) ? 70000 : 300), (char)r.next())); break;
		case 9:
			if (!other.empty())
			{
				const size_t o = r.below(other.size());
				s.replace(at, len, other.substr(o, r.below(600)));
			}
			break;
		case 10: s.insert(at, std::string(1 + r.below(3), '\0')); break;
		}
	}
	return s;
}

std::string utf16(const std::string &s, bool be)
{
	std::string o = be ? "\xFE\xFF" : "\xFF\xFE";
	for (unsigned char ch : s)
	{
		if (be) o += '\0';
		o += (char)ch;
		if (!be) o += '\0';
	}
	return o;
}

//! The construction rules, on what the engine reports.
void rules(const PTN_Engine &e, const std::string &doc)
{
	std::set<std::string> P, T;
	auto quote = [&] { return "\n" + doc.substr(0, 3000); };
	for (auto &p : e.getPlacesProperties())
	{
		VH_CHECK(!p.name.empty(), "rule", "place without a name" << quote());
		VH_CHECK(P.insert(p.name).second, "rule", "place twice: " << p.name << quote());
		VH_CHECK(p.onEnterActionFunctionName.empty() == !p.onEnterAction, "rule", "place " << p.name << " has a function name without function" << quote());
		VH_CHECK(p.onExitActionFunctionName.empty() == !p.onExitAction, "rule", "place " << p.name << " has a function name without function" << quote());
		VH_CHECK(e.getNumberOfTokens(p.name) == p.initialNumberOfTokens, "rule", "tokens of " << p.name << quote());
		VH_CHECK(p.onEnterActionFunctionName.empty() || std::ranges::count(fnNames, p.onEnterActionFunctionName), "rule", "unregistered action" << quote());
		VH_CHECK(p.onExitActionFunctionName.empty() || std::ranges::count(fnNames, p.onExitActionFunctionName), "rule", "unregistered action" << quote());
	}
	for (auto &t : e.getTransitionsProperties())
	{
		VH_CHECK(!t.name.empty(), "rule", "transition without a name" << quote());
		VH_CHECK(T.insert(t.name).second, "rule", "transition twice: " << t.name << quote());
		auto list = [&](const std::vector<ArcProperties> &l, bool zero, const char *kind)
		{
			std::set<std::string> had;
			for (auto &a : l)
			{
				VH_CHECK(P.contains(a.placeName), "rule", kind << " arc of " << t.name << " to unknown place " << a.placeName << quote());
				VH_CHECK(had.insert(a.placeName).second, "rule", kind << " arc of " << t.name << " and " << a.placeName << " twice" << quote());
				VH_CHECK(a.weight > 0 || zero, "rule", kind << " arc of " << t.name << " and " << a.placeName << " has weight 0" << quote());
			}
		};
		list(t.activationArcs, true, "activation");
		list(t.destinationArcs, false, "destination");
		list(t.inhibitorArcs, false, "inhibitor");
		VH_CHECK(t.additionalConditions.size() == t.additionalConditionsNames.size(), "rule", "conditions of " << t.name << quote());
		for (size_t i = 0; i < t.additionalConditions.size(); ++i)
		{
			VH_CHECK((bool)t.additionalConditions[i], "rule", "condition of " << t.name << " without function" << quote());
			VH_CHECK(std::ranges::count(condNames, t.additionalConditionsNames[i]), "rule", "unregistered condition of " << t.name << quote());
		}
	}
	std::ostringstream o;
	e.printState(o);
}

void write(const std::string &path, const std::string &text)
{
	std::ofstream f(path, std::ios::binary);
	f.write(text.data(), (std::streamsize)text.size());
}

void addIds(Model &net, const Model &reg)
{
	net.actions = reg.actions;
	net.conditions = reg.conditions;
	net.sleep = reg.sleep;
	for (auto &[n, p] : net.places)
	{
		p.enter = p.enterName.empty() ? -1 : reg.actions.at(p.enterName);
		p.exit = p.exitName.empty() ? -1 : reg.actions.at(p.exitName);
	}
	for (auto &[n, t] : net.trans)
	{
		t.conds.clear();
		for (auto &c : t.condNames) t.conds.push_back(reg.conditions.at(c));
	}
}

//! The net the engine reports.
Model readBack(Api &a)
{
	Model m;
	for (auto &p : a.e->getPlacesProperties())
	{
		auto &q = m.places[p.name];
		q.tokens = p.initialNumberOfTokens;
		q.input = p.input;
		q.enterName = p.onEnterActionFunctionName;
		q.exitName = p.onExitActionFunctionName;
	}
	for (auto &t : a.e->getTransitionsProperties())
	{
		auto &q = m.trans[t.name];
		for (auto &x : t.activationArcs) q.act[x.placeName] = x.weight;
		for (auto &x : t.destinationArcs) q.dest[x.placeName] = x.weight;
		for (auto &x : t.inhibitorArcs) q.inh[x.placeName] = x.weight;
		q.condNames = t.additionalConditionsNames;
		q.reqNo = t.requireNoActionsInExecution;
	}
	m.mode = a.e->getActionsThreadOption();
	addIds(m, a.m);
	m.calls = a.m.calls;
	m.sleep = a.e->getEventLoopSleepDuration().count();
	return m;
}
} // namespace

void vh_case(vh::Case &c, Rng &r)
{
	Api a((Mode)r.below(4));
	for (auto &n : fnNames) a.registerAction(n);
	for (auto &n : condNames) a.registerCondition(n, r.chance(1, 2));
	const Model reg = a.m;
	auto importer = ptne::FileImporterFactory::createXMLFileImporter();
	const std::string file = c.tmp + "/doc.xml";
	const int docs = 3 + (int)r.below(8);
	std::string other;
	uint64_t h = 0;
	for (int k = 0; k < docs; ++k)
	{
		vh::tick();
		a.e->clearNet();
		a.settle();
		a.m.places.clear();
		a.m.trans.clear();
		a.m_asyncBefore = true;
		if (r.chance(1, 8))
		{
			a.e->execute(); // on an empty net: the import stops it
			if (r.chance(1, 2)) a.e->stop();
		}
		const int kind = (int)r.below(8);
		Doc d = grammar(r, kind == 0 || kind == 1 ? (int)r.below(21) : -1);
		std::string how = d.defect.empty() ? "well formed" : d.defect;
		if (kind >= 3 && kind <= 6)
		{
			d.text = mutate(d.text, r, other);
			d.valid = d.mustThrow = false;
			how = "mutated";
		}
		else if (kind == 7 && r.chance(1, 2))
		{
			static const char *odd[] = { "", " ", "<", "<a/>", "<PTN-Engine/>", "<PTN-Engine actionsThreadOption=\"DETACHED\"/>", "\xff\xfe", "<?xml version=\"1.0\"?>", "hello", "<PTN-Engine", "<<<>>>", "\xEF\xBB\xBF" };
			d.text = odd[r.below(std::size(odd))];
			if (r.chance(1, 6))
			{
				d.text = "<PTN-Engine actionsThreadOption=\"DETACHED\"><Places>";
				const int depth = 20000 + (int)r.below(60000);
				for (int i = 0; i < depth; ++i) d.text += "<a>";
				if (r.chance(1, 2))
					for (int i = 0; i < depth; ++i) d.text += "</a>";
			}
			d.valid = d.mustThrow = false;
			how = "odd";
		}
		else if (kind == 7 && r.chance(1, 3))
		{
			d.text = utf16(d.text, r.chance(1, 2));
			d.valid = false; // (names in UTF-8 were not re-encoded)
			d.mustThrow = false;
			how = "UTF-16";
		}
		other = d.text;
		vh::describe(how + ": " + d.text.substr(0, 1500));
		std::string path = file;
		if (kind == 7 && how == "well formed" && r.chance(1, 4))
		{
			static const char *p[] = { "", "/", "/nonexistent/x.xml", "/dev/null", "." };
			path = p[r.below(5)];
			d.valid = false;
			d.mustThrow = true;
			how = "no file";
		}
		if (path == file) write(file, d.text);
		if (r.chance(1, 4)) importer = ptne::FileImporterFactory::createXMLFileImporter();
		bool threw = false;
		try
		{
			importer->_import(path, *a.e);
		}
		catch (const ptne::PTN_Exception &x)
		{
			threw = true;
			VH_CHECK(!d.valid, "good-file-refused", x.what() << "\n" << d.text.substr(0, 3000));
		}
		catch (const std::exception &x)
		{
			vh::fail("wrong-exception", std::string("import threw something that is no PTN_Exception: ") + x.what() + "\n" + d.text.substr(0, 3000));
		}
		VH_CHECK(threw || !d.mustThrow, "bad-file-accepted", how << "\n" << d.text.substr(0, 3000));
		vh::count(threw ? "refused" : "imported");
		vh::count((threw ? "refused: " : "imported: ") + (d.defect.empty() ? how : "defects"));
		if (d.mustThrow && !d.defect.empty()) vh::count("defect: " + d.defect);
		rules(*a.e, d.text);
		if (a.e->isEventLoopRunning()) a.e->stop();
		Model now = readBack(a);
		if (d.valid)
		{
			addIds(d.net, reg);
			d.net.calls = a.m.calls;
			d.net.sleep = now.sleep;
			a.m = d.net;
			a.m.running = false;
			a.trail = "import of " + d.text.substr(0, 1500);
			a.compare("after the import");
		}
		else
		{
			a.m = now;
			a.trail = "import of " + d.text.substr(0, 1500);
			a.compare("as reported");
		}
		h = vh::hcomb(h, std::hash<std::string>()(d.text));
		// the engine is usable: run what is there, if that is determined
		for (auto &[n, id] : reg.conditions) a.fn->value[id] = r.chance(1, 2);
		a.m_asyncBefore = true;
		if (a.execute())
		{
			a.compare("after running the imported net");
			for (auto &[n, p] : a.m.places)
				if (p.input && r.chance(1, 3)) a.increment(n);
			if (a.m.running) a.stop();
			vh::count("runs");
		}
		a.settle();
		vh::count("firings", (uint64_t)a.firings);
		a.firings = 0;
		// and a later import of a good file works
		if (r.chance(1, 3))
		{
			a.clearNet();
			Doc g = grammar(r, -1);
			write(file, g.text);
			if (r.chance(1, 4)) importer = ptne::FileImporterFactory::createXMLFileImporter();
			vh::describe("good file after " + how + ": " + d.text.substr(0, 1000) + " ... " + g.text.substr(0, 1000));
			try
			{
				importer->_import(file, *a.e);
			}
			catch (const std::exception &x)
			{
				vh::fail("good-file-refused", std::string(x.what()) + " (after " + how + ")\n" + g.text.substr(0, 3000));
			}
			addIds(g.net, reg);
			g.net.calls = a.m.calls;
			g.net.sleep = a.m.sleep;
			a.m = g.net;
			a.m.running = false;
			a.compare("after the later import");
			vh::count("later_imports");
		}
	}
	unlink(file.c_str());
	vh::distinct(h);
	if (c.index < 2) vh::sample(other.substr(0, 1200));
}

// Workload driver: executes requests against the real interpreter through its public API and reports,
// one JSON line per request, everything a user of the API can observe.
// Input: one request per line, fields separated by tabs, with \\ \t \n \r \0 escaped.
// Output (fd given by DRV_FD or 3): "B <id>" before, JSON record after each request.
#include "Lisp.h"
#include "Environment.h"
#include "Scope.h"
#include "Interpreter.h"
#include "Parser.h"
#include "Tokenizer.h"
#include "Exception.h"
#include "Variant.h"
#include "DebuggerInterface.h"
#include "fuel.h"
#include "Debugger.h"

#include <unistd.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/resource.h>
#include <cstdio>
#include <cmath>
#include <atomic>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <thread>
#include <streambuf>

using namespace CppLisp;
typedef std::string S;

static int g_fd = 3;

struct NullBuf : public std::streambuf
{
	int overflow(int c) override { return c == EOF ? 0 : c; }
	std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

static void WriteAll(const S & s)
{
	size_t off = 0;
	while (off < s.size())
	{
		ssize_t n = ::write(g_fd, s.data() + off, s.size() - off);
		if (n <= 0) { _exit(97); }
		off += (size_t)n;
	}
}

static S J(const S & s)
{
	S r = "\"";
	char buf[8];
	for (size_t i = 0; i < s.size(); i++)
	{
		unsigned char c = (unsigned char)s[i];
		if (c == '"') r += "\\\"";
		else if (c == '\\') r += "\\\\";
		else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
		else r += (char)c;
	}
	return r + "\"";
}

static S Unesc(const S & s)
{
	S r;
	for (size_t i = 0; i < s.size(); i++)
	{
		if (s[i] == '\\' && i + 1 < s.size())
		{
			char c = s[++i];
			r += c == 't' ? '\t' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == '0' ? '\0' : c;
		}
		else r += s[i];
	}
	return r;
}

static std::vector<S> SplitTabs(const S & line)
{
	std::vector<S> out;
	size_t p = 0;
	while (true)
	{
		size_t q = line.find('\t', p);
		if (q == S::npos) { out.push_back(Unesc(line.substr(p))); return out; }
		out.push_back(Unesc(line.substr(p, q - p)));
		p = q + 1;
	}
}

// ---------------------------------------------------------------- structural dump of values
static S DumpObj(const std::shared_ptr<object> & o, int depth);

static S DumpStr(const S & s)
{
	S r = "\"";
	for (size_t i = 0; i < s.size(); i++) { if (s[i] == '"' || s[i] == '\\') r += '\\'; r += s[i]; }
	return r + "\"";
}

static S DumpDouble(double d)
{
	if (std::isnan(d)) return "dnan";
	char buf[64];
	snprintf(buf, sizeof buf, "d%.17g", d);
	return buf;
}

static S DumpSeq(const IEnumerable<std::shared_ptr<object>> & l, int depth)
{
	S r = "(";
	bool first = true;
	for (size_t i = 0; i < l.size(); i++)
	{
		if (!first) r += ' ';
		first = false;
		r += DumpObj(l[i], depth + 1);
	}
	return r + ")";
}

static S DumpVar(const LispVariant & v, int depth)
{
	if (depth > 200) return "...";
	switch (v.Type)
	{
	case _Undefined: return "u";
	case _Nil: return "n";
	case _Bool: return v.BoolValue() ? "#t" : "#f";
	case _Int: return "i" + std::to_string(v.IntValue());
	case _Double: return DumpDouble(v.DoubleValue());
	case _String: return DumpStr(v.StringValue());
	case _List: return DumpSeq(v.ListValueRef(), depth);
	case _Function: return "F" + DumpStr(v.FunctionValue().Signature);
	case _Symbol: return "'" + (v.Value ? S(v.Value->ToString()) : S("<null>"));
	case _NativeObject:
		if (v.Value && v.Value->IsDictionary())
		{
			S r = "{";
			Dictionary<LispVariant, std::shared_ptr<object>> & d = v.Value->ToDictionary();
			for (auto it = d.begin(); it != d.end(); ++it)
			{
				if (r.size() > 1) r += ", ";
				r += DumpVar(it->first, depth + 1) + ":" + DumpObj(it->second, depth + 1);
			}
			return r + "}";
		}
		return "N";
	case _LValue: return "L";
	case _Error: return "E" + DumpStr(v.Value ? S(v.Value->ToString()) : S(""));
	default: return "?" + std::to_string((int)v.Type);
	}
}

static S DumpObj(const std::shared_ptr<object> & o, int depth)
{
	if (!o) return "0";
	if (depth > 200) return "...";
	if (o->IsLispVariant()) return DumpVar(o->ToLispVariantRef(), depth);
	if (o->IsList()) return DumpSeq(o->ToListRef(), depth);
	if (o->IsInt()) return "i" + std::to_string((int)*o);
	if (o->IsDouble()) return DumpDouble((double)*o);
	if (o->IsBool()) return (bool)*o ? "#t" : "#f";
	if (o->IsString()) return DumpStr(o->ToString());
	return "<" + S(o->GetTypeName()) + ">";
}

static S DumpRes(const std::shared_ptr<LispVariant> & v) { return v ? DumpVar(*v, 0) : S("0"); }

// ---------------------------------------------------------------- guarded calls
struct Outcome
{
	S kind;   // ok | lisp | base | std | stop | other
	S value, str, msg, line, start, stop, module, stack;
};

static S DataStr(const std::map<string, std::shared_ptr<object>> & d, const char * key)
{
	auto it = d.find(key);
	return it == d.end() || !it->second ? S("<none>") : S(it->second->ToString());
}

static Outcome Guard(std::function<std::shared_ptr<LispVariant>()> f)
{
	Outcome r;
	try
	{
		std::shared_ptr<LispVariant> v = f();
		r.kind = "ok";
		r.value = DumpRes(v);
		if (v) r.str = v->ToString();
	}
	catch (LispStopDebuggerException &) { r.kind = "stop"; }
	catch (LispException & e)
	{
		r.kind = "lisp";
		r.msg = e.Message;
		r.line = DataStr(e.Data, "LineNo");
		r.start = DataStr(e.Data, "StartPos");
		r.stop = DataStr(e.Data, "StopPos");
		r.module = DataStr(e.Data, "ModuleName");
		r.stack = DataStr(e.Data, "StackInfo");
	}
	catch (LispExceptionBase & e) { r.kind = "base"; r.msg = e.Message; }
	catch (std::exception & e) { r.kind = "std"; r.msg = e.what(); }
	catch (...) { r.kind = "other"; }
	return r;
}

static S OutcomeJson(const Outcome & o)
{
	S r = "{\"k\":" + J(o.kind);
	if (o.kind == "ok") { r += ",\"v\":" + J(o.value) + ",\"s\":" + J(o.str); }
	else
	{
		r += ",\"m\":" + J(o.msg);
		if (o.kind == "lisp")
			r += ",\"line\":" + J(o.line) + ",\"start\":" + J(o.start) + ",\"stop\":" + J(o.stop) + ",\"mod\":" + J(o.module) + ",\"stack\":" + J(o.stack);
	}
	return r;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define DRV_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

static size_t HeapInUse()
{
#ifdef DRV_ASAN
	return __sanitizer_get_current_allocated_bytes();
#endif
	struct mallinfo2 m = mallinfo2();
	return m.uordblks + m.hblkhd;
}

// ---------------------------------------------------------------- step monitor (implements the public debugger interface)
struct StepMonitor : public ILispDebugger
{
	std::vector<S> events;
	size_t total = 0;
	size_t maxEvents = 3000;
	int interactive = 0;
	S watch;                          // name of a variable whose value is recorded with each event
	std::vector<S> watched;
	size_t limit = 0;                 // ends the evaluation (as the debugger's stop does) after so many calls or when the heap is too big
	size_t limitHeap = 0;
	bool heap = false;                // record the heap at the calls on line 77 instead of the events
	std::vector<size_t> heaps;
	void InteractiveLoop(std::shared_ptr<LispScope>, std::shared_ptr<IEnumerable<std::shared_ptr<object>>>, bool, bool, std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override { interactive++; }
	bool NeedsBreak(std::shared_ptr<LispScope> scope, LispBreakpointPosition pos) override
	{
		total++;
		if (limit)
		{
			if (total > limit || (limitHeap && HeapInUse() > limitHeap)) throw LispStopDebuggerException("limit");
			return false;
		}
		if (heap)
		{
			if ((long)(int)pos.Item3() == 77 && heaps.size() < heaps.capacity()) heaps.push_back(HeapInUse());
			return false;
		}
		if (events.size() < maxEvents)
		{
			if (!watch.empty()) watched.push_back(S(scope->ResolveInScopes(std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(watch.c_str()))), false)->ToString()));
			events.push_back(std::to_string((long)(int)pos.Item3()) + ":" + std::to_string((long)(int)pos.Item1()) + ":" + std::to_string((long)(int)pos.Item2()) + ":" + std::to_string(scope->GetCallStackSize()) + ":" + S(scope->Name) + ":" + S(scope->ModuleName));
		}
		return false;
	}
	std::shared_ptr<LispVariant> DebuggerLoop(const string &, const string &, bool) override { return nullptr; }
	void SetInputOutputStreams(std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) override {}
};

static std::shared_ptr<TextReader> MakeReader(const S & in)
{
	auto rd = std::make_shared<TextReader>();
	rd->EnableFromString(true);
	rd->SetContent(in);
	return rd;
}

// eval <id> <flags> <module> <input> code...
//   flags: x=macro expand only, t=tracing, m=step monitor, l=end after 4000 calls, i=record the value of the variable i at each call, h=report heap after each code, n = fresh (null) scope for each code
static S DoEval(const std::vector<S> & f)
{
	const S & flags = f[2];
	bool expand = flags.find('x') != S::npos, tracing = flags.find('t') != S::npos, monitor = flags.find('m') != S::npos, heap = flags.find('h') != S::npos, fresh = flags.find('n') != S::npos;
	auto scope = fresh ? std::shared_ptr<LispScope>() : LispEnvironment::CreateDefaultScope();
	auto out = std::make_shared<TextWriter>(true);
	auto in = MakeReader(f[4]);
	StepMonitor mon;
	if (flags.find('i') != S::npos) mon.watch = "i";
	bool limited = flags.find('l') != S::npos;
	if (limited) { mon.limit = 4000; mon.limitHeap = HeapInUse() + (300u << 20); }
	if ((monitor || limited) && scope) scope->Debugger = &mon;
	if (heap) { mon.heap = true; mon.heaps.reserve(4096); }
	S res = "\"r\":[";
	if (heap) res.reserve(32u << 20);
	size_t seen = 0;
	for (size_t i = 5; i < f.size(); i++)
	{
		if (heap) { out = std::make_shared<TextWriter>(true); seen = 0; }
		Outcome o = Guard([&]() { return Lisp::Eval(f[i], scope, f[3], tracing, out, in, expand); });
		S content = out->GetContent();
		S delta = content.substr(std::min(seen, content.size()));
		seen = content.size();
		if (i > 5) res += ",";
		res += OutcomeJson(o) + ",\"o\":" + J(delta);
		if (heap) { content = S(); delta = S(); o = Outcome(); res += ",\"heap\":" + std::to_string(HeapInUse()); }
		if (limited) mon.total = 0;
		if (monitor)
		{
			res += ",\"steps\":" + std::to_string(mon.total) + ",\"int\":" + std::to_string(mon.interactive) + ",\"ev\":[";
			for (size_t k = 0; k < mon.events.size(); k++) { if (k) res += ","; res += J(mon.events[k]); }
			res += "],\"hp\":[";
			for (size_t k = 0; k < mon.heaps.size(); k++) { if (k) res += ","; res += std::to_string(mon.heaps[k]); }
			res += "]";
			res += ",\"iv\":[";
			for (size_t k = 0; k < mon.watched.size(); k++) { if (k) res += ","; res += J(mon.watched[k]); }
			res += "]";
			mon.watched.clear();
			mon.heaps.clear();
			mon.events.clear(); mon.total = 0; mon.interactive = 0;
		}
		res += "}";
	}
	if (scope) scope->Debugger = nullptr;
	return res + "]";
}

// save <id> <flags> <module> <input> code
static S DoSave(const std::vector<S> & f)
{
	auto out = std::make_shared<TextWriter>(true);
	auto in = MakeReader(f[4]);
	Outcome o = Guard([&]() { return Lisp::SaveEval(f[5], f[3], f[2].find('v') != S::npos, f[2].find('t') != S::npos, out, in, f[2].find('x') != S::npos); });
	return "\"r\":[" + OutcomeJson(o) + ",\"o\":" + J(out->GetContent()) + "}]";
}

// tok <id> <offset> code
static S DoTok(const std::vector<S> & f)
{
	S toks;
	Outcome o = Guard([&]() -> std::shared_ptr<LispVariant> {
		auto t = LispTokenizer::Tokenize(f[3], (size_t)atol(f[2].c_str()));
		bool first = true;
		for (auto & k : t)
		{
			if (!first) toks += ",";
			first = false;
			toks += "[" + std::to_string((int)k->Type) + "," + J(k->ToString()) + "," + std::to_string((long)k->StartPos) + "," + std::to_string((long)k->StopPos) + "," + std::to_string((long)k->LineNo) + "]";
		}
		return std::make_shared<LispVariant>();
	});
	return "\"r\":[" + OutcomeJson(o) + "}],\"toks\":[" + toks + "]";
}

// parse <id> <offset> code  -> structural dump of the syntax tree
static S DoParse(const std::vector<S> & f)
{
	S dump;
	Outcome o = Guard([&]() -> std::shared_ptr<LispVariant> {
		auto t = LispParser::Parse(f[3], (size_t)atol(f[2].c_str()));
		dump = DumpObj(t, 0);
		return std::make_shared<LispVariant>();
	});
	return "\"r\":[" + OutcomeJson(o) + "}],\"ast\":" + J(dump);
}

// main <id> <input> arg...
static S DoMain(const std::vector<S> & f)
{
	LispUtils_LibraryPath = "";
	auto out = std::make_shared<TextWriter>(true);
	auto in = MakeReader(f[2]);
	std::vector<string> args;
	for (size_t i = 3; i < f.size(); i++) args.push_back(string(f[i]));
	Outcome o = Guard([&]() -> std::shared_ptr<LispVariant> { Fuel::MainExtended(args, out, in); return std::make_shared<LispVariant>(); });
	LispUtils_LibraryPath = "";
	return "\"r\":[" + OutcomeJson(o) + ",\"o\":" + J(out->GetContent()) + "}]";
}

// dbg <id> <module> <commands> script      (real debugger; commands separated by newline)
static S DoDbg(const std::vector<S> & f)
{
	auto out = std::make_shared<TextWriter>(true);
	auto in = MakeReader(f[3]);
	Outcome o;
	{
		LispDebugger dbg;
		dbg.SetInputOutputStreams(out, in);
		o = Guard([&]() { return dbg.DebuggerLoop(f[4], f[2], false); });
	}
	return "\"r\":[" + OutcomeJson(o) + ",\"o\":" + J(out->GetContent()) + "}]";
}

// multi <id> (op env flags input code)*      several environments in one process; op: n = new environment, e = evaluate, d = drop, m = main program with the arguments (separated by newlines) in code, s = guarded evaluation, b = debugger (commands in input)
static S RunOps(const std::vector<S> & f, bool yields)
{
	struct Env { std::shared_ptr<LispScope> scope; std::shared_ptr<TextWriter> out; std::shared_ptr<TextReader> in; size_t seen = 0; StepMonitor mon; };
	std::map<S, std::shared_ptr<Env>> envs;
	S res;
	bool first = true;
	for (size_t i = 0; i + 4 < f.size(); i += 5)
	{
		const S & op = f[i], & name = f[i + 1], & flags = f[i + 2], & input = f[i + 3], & code = f[i + 4];
		Outcome o;
		S delta;
		if (yields) std::this_thread::yield();
		if (op == "n")
		{
			auto e = std::make_shared<Env>();
			e->scope = LispEnvironment::CreateDefaultScope();
			e->out = std::make_shared<TextWriter>(true);
			e->in = MakeReader(input);
			if (flags.find('l') != S::npos) { e->mon.limit = 4000; e->scope->Debugger = &e->mon; }
			envs[name] = e;
			continue;
		}
		if (op == "d") { if (envs.count(name)) { envs[name]->scope->Debugger = nullptr; } envs.erase(name); continue; }
		if (op == "e")
		{
			auto e = envs[name];
			o = Guard([&]() { return Lisp::Eval(code, e->scope, "main", flags.find('t') != S::npos, e->out, e->in, flags.find('x') != S::npos); });
			S content = e->out->GetContent();
			delta = content.substr(std::min(e->seen, content.size()));
			e->seen = content.size();
			e->mon.total = 0;
		}
		else
		{
			auto out = std::make_shared<TextWriter>(true);
			auto in = MakeReader(input);
			if (op == "m")
			{
				std::vector<string> args;
				std::istringstream is(code);
				S a;
				while (std::getline(is, a)) args.push_back(string(a));
				o = Guard([&]() -> std::shared_ptr<LispVariant> { Fuel::MainExtended(args, out, in); return std::make_shared<LispVariant>(); });
			}
			else if (op == "s") o = Guard([&]() { return Lisp::SaveEval(code, "main", flags.find('v') != S::npos, flags.find('t') != S::npos, out, in, flags.find('x') != S::npos); });
			else
			{
				LispDebugger dbg;
				dbg.SetInputOutputStreams(out, in);
				o = Guard([&]() { return dbg.DebuggerLoop(code, "main", false); });
			}
			delta = out->GetContent();
		}
		if (!first) res += ",";
		first = false;
		res += OutcomeJson(o) + ",\"n\":" + J(name) + ",\"o\":" + J(delta) + "}";
	}
	for (auto & e : envs) e.second->scope->Debugger = nullptr;
	return res;
}

static S DoMulti(const std::vector<S> & f) { return "\"r\":[" + RunOps(std::vector<S>(f.begin() + 2, f.end()), false) + "]"; }

// threads <id> <reps> <n> (thread op env flags input code)*     each thread runs its operations, as multi does, reps times
static S DoThreads(const std::vector<S> & f)
{
	int reps = atoi(f[2].c_str()), n = atoi(f[3].c_str());
	std::vector<std::vector<S>> ops((size_t)n);
	for (size_t i = 4; i + 5 < f.size(); i += 6) { auto & v = ops[(size_t)atoi(f[i].c_str())]; v.insert(v.end(), f.begin() + i + 1, f.begin() + i + 6); }
	std::vector<std::vector<S>> results((size_t)n, std::vector<S>((size_t)reps));
	std::atomic<int> ready(0);
	std::vector<std::function<void()>> bodies;
	for (int t = 0; t < n; t++) bodies.push_back([&, t]()
	{
		for (int rep = 0; rep < reps; rep++)
		{
			// all threads begin each repetition together
			ready++;
			while (ready.load() < n * (rep + 1)) std::this_thread::yield();
			results[(size_t)t][(size_t)rep] = RunOps(ops[(size_t)t], true);
		}
	});
	std::vector<pthread_t> th;
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstacksize(&attr, 256u << 20);
	for (int t = 0; t < n; t++)
	{
		pthread_t h;
		pthread_create(&h, &attr, [](void * p) -> void * { (*(std::function<void()> *)p)(); return nullptr; }, &bodies[(size_t)t]);
		th.push_back(h);
	}
	for (auto h : th) pthread_join(h, nullptr);
	S res = "\"r\":[],\"t\":[";
	for (int t = 0; t < n; t++)
	{
		res += t ? ",[" : "[";
		for (int rep = 0; rep < reps; rep++) res += S(rep ? ",[" : "[") + results[(size_t)t][(size_t)rep] + "]";
		res += "]";
	}
	return res + "]";
}

// compare <id> code      code gives a list: every pair of its elements compared by the class of the values: sign of CompareTo (with object and with variant), ==, !=
static S DoCompare(const std::vector<S> & f)
{
	auto scope = LispEnvironment::CreateDefaultScope();
	S rows;
	Outcome o = Guard([&]()
	{
		auto v = Lisp::Eval(f[2], scope, "main");
		std::vector<std::shared_ptr<LispVariant>> vals;
		for (const auto & x : v->ListValueRef()) vals.push_back(std::make_shared<LispVariant>(x->ToLispVariantRef()));
		auto sign = [](int x) { return S(1, x < 0 ? '-' : x > 0 ? '+' : '0'); };
		for (const auto & a : vals)
		{
			rows += rows.empty() ? "[" : ",[";
			bool first = true;
			for (const auto & b : vals)
			{
				S cell = sign(a->CompareTo(std::make_shared<object>(*b))) + sign(a->CompareTo(b)) + (*a == *b ? "1" : "0") + (*a != *b ? "1" : "0");
				rows += (first ? "" : ",") + J(cell);
				first = false;
			}
			rows += "]";
		}
		return v;
	});
	return "\"r\":[" + OutcomeJson(o) + ",\"o\":\"\"}],\"c\":[" + rows + "]";
}

// libpath <id> path
static S DoLib(const std::vector<S> & f) { LispUtils_LibraryPath = f[2]; return "\"r\":[]"; }

static std::ifstream g_in;

static void * MainLoop(void *)
{
	S line;
	while (std::getline(g_in, line))
	{
		if (line.empty()) continue;
		std::vector<S> f = SplitTabs(line);
		WriteAll("B " + f[1] + "\n");
		S body;
		const S & k = f[0];
		if (k == "eval") body = DoEval(f);
		else if (k == "save") body = DoSave(f);
		else if (k == "tok") body = DoTok(f);
		else if (k == "parse") body = DoParse(f);
		else if (k == "main") body = DoMain(f);
		else if (k == "dbg") body = DoDbg(f);
		else if (k == "multi") body = DoMulti(f);
		else if (k == "compare") body = DoCompare(f);
		else if (k == "lib") body = DoLib(f);
		else if (k == "threads") body = DoThreads(f);
		else body = "\"r\":[],\"bad\":1";
		WriteAll("{\"id\":" + J(f[1]) + "," + body + "}\n");
	}
	return nullptr;
}

int main(int argc, char ** argv)
{
	if (const char * lib = getenv("DRV_LIB")) LispUtils_LibraryPath = string(lib);
	if (argc < 2) return 96;
	g_in.open(argv[1], std::ios::binary);
	if (!g_in) return 95;
	if (const char * p = getenv("DRV_FD")) g_fd = atoi(p);
	static NullBuf nb;
	std::cout.rdbuf(&nb);
	// run on a thread with a big stack, so that recursion depth is bounded by the workload and not by the host's default
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	const char * mb = getenv("DRV_STACK_MB");
	pthread_attr_setstacksize(&attr, (size_t)(mb ? atoi(mb) : 1024) << 20);
	pthread_t h;
	if (pthread_create(&h, &attr, MainLoop, nullptr) != 0) { fprintf(stderr, "driver: no thread\n"); return 98; }
	pthread_join(h, nullptr);
	_exit(0);
}

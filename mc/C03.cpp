// SELECT / REMOVE / IFF / RESTORE: reading removal, never losing the last reading
#include "enumr.hpp"
int main(int argc, char** argv) {
	return engine_main(argc, argv, "C03", "all grammars of one or two rules over the removal-rule menu (SELECT, REMOVE, IFF, RESTORE x flags x targets x contexts) on all windows of up to 3 cohorts of up to 3 small readings, with and without --trace and --unsafe", [](bool thorough) {
		SV tgt{"(a)", "(b)", "(a b)", "(a) OR (b)", "(*)", "(a) - (b)"};
		SV ctx{"", " IF (1 (b))", " IF (-1 (a))", " IF (NOT 1 (a))", " IF (1C (a))", " IF (0 (c))", " IF (-1 (a)) (1 (b))"};
		SV rules;
		for (auto& k : SV{"SELECT", "REMOVE", "IFF"}) rules = rules + cat(k + " ", cat(tgt, ctx), " ;\n");
		for (auto& k : SV{"REMOVE UNSAFE", "IFF UNSAFE", "SELECT UNSAFE", "REMOVE SAFE", "REMOVE DELAYED", "REMOVE IGNORED", "SELECT DELAYED", "SELECT IGNORED", "IFF DELAYED"}) rules = rules + cat(k + " ", cat(SV{"(a)", "(b)", "(*)"}, SV{"", " IF (1 (b))", " IF (NOT -1 (a))"}), " ;\n");
		rules = rules + SV{"RESTORE (a) (b) ;\n", "RESTORE DELAYED (a) (*) ;\n", "RESTORE IGNORED (a) (*) ;\n", "RESTORE (*) (a) ;\n", "ADD (c) (a) ;\n"};
		SV rd{"x,a", "x,b", "x,a,b", "x,c"};
		SV coh = cat("_:", subsets(rd, 1, 3, "|"));
		SV in1 = inputs(seqs(coh, 1, 2)), in2;
		SV few{"_:x,a|x,b", "_:x,a", "_:x,a,b|x,b|x,c", "_:x,b|x,c", "_:x,a|x,a,b"};
		in2 = inputs(seqs(few, 1, 3));
		std::string H = "DELIMITERS = \"<.>\" ;\n";
		std::vector<impl::Args> A{{}, {"--trace"}, {"--unsafe"}};
		std::vector<Space> v;
		v.push_back(product("one_rule", cat(H + "SECTION\n", rules), in1, A));
		SV r2; for (size_t i = 0; i < rules.size(); i += 1) r2.push_back(rules[i]);
		SV two; for (size_t i = 0; i < r2.size(); ++i) for (size_t j = 0; j < r2.size(); ++j) { if (!thorough && (i * 7 + j) % 5) continue; two.push_back(H + "SECTION\n" + r2[i] + ((i + j) % 3 ? "" : "SECTION\n") + r2[j]); }
		v.push_back(product("two_rules", two, thorough ? in2 : inputs(seqs(few, 1, 2)), {{"--trace"}}));
		return v;
	});
}

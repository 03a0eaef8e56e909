import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={
"C01":("runtime monitoring: a terminal emulator as online monitor of everything the ANSI writers emit","Every character the emulator prints is compared with its requested style; all style pairs and all Unicode scalar values are covered, sequences and nestings are sampled. Trusts the emulator's reading of SGR codes."),
"C02":("runtime monitoring: state monitor over the sink after finish, all last styles","All last styles after several predecessors are covered, longer histories sampled. Trusts the terminal emulator and the HTML reader of the harness."),
"C03":("runtime monitoring: an HTML reader with a style stack as monitor of everything the HTML writer emits","All style pairs and all scalar values covered, sequences and nestings sampled. Trusts the harness's reader of the emitted HTML subset and of CSS colors."),
"C04":("runtime monitoring: an HTML tokenizer as monitor under hostile texts","Every scalar value and every short string over a hostile alphabet, longer texts sampled. Trusts the tokenizer."),
"C05":("runtime monitoring: differential monitor across the five writers with styling removed","Texts and nestings are sampled; the reference is the text handed in."),
"C06":("runtime monitoring: reference model of styles and differences against the library's values","All 867x867 pairs of styles are covered, compositions are sampled. Trusts the model (three independent fields)."),
"C07":("runtime monitoring: recording writer under nested values, checked against a model","Nestings are generated at random and by templates up to deep ones; every recorded piece is compared with the model."),
"C08":("runtime monitoring: generated programs run against a recording writer, compared per character with programmatic restyles","All 1296 attribute combinations, other strings sampled. Trusts rustc."),
"C09":("runtime monitoring: generated programs, differential monitor against std::fmt with a probe that reports every flag","The grid of flags is covered completely, values sampled from a pool. The reference is std::format!."),
"C10":("runtime monitoring: generated programs, event logs of evaluation, formatting and drops compared with std's macros","Argument lists are sampled; the reference is the std macro with the same arguments."),
"C11":("runtime monitoring of the macro itself: compiler verdicts on generated calls against std's verdict and a reference grammar","Strings are sampled from the grammar, from mutations and by templates; only judged if std and the reference grammar agree, or the string has attributes. Trusts the reference grammar for attributes."),
"C12":("runtime monitoring: recording monitor of replays over histories of styled strings","All pairs of styles and all short write sequences, longer histories sampled, against a model."),
"C13":("runtime monitoring with fault injection: sinks that write short and are interrupted at chosen calls","Every single and double placement for small works, random ones for larger; the reference is the fault-free run of the same writer."),
"C14":("runtime monitoring with fault injection: log checker over sink calls for single writes, write_all and flush","Reactions of the sink enumerated for short histories, sampled for longer ones; every result is checked against the log."),
"C15":("runtime monitoring with fault injection: a failure at every sink call or leaf value in turn","Every placement in each work; works are sampled."),
"C16":("runtime monitoring with fault injection: histories with failing values and refused texts, state monitor after each step","Short histories enumerated, longer ones sampled; what a refused style change leaves behind is not judged."),
"C17":("runtime monitoring: output compared between ways to cut the same styled characters, redundant codes counted by the emulator","Cuts and sequences sampled, all pairs of styles covered."),
"C18":("runtime monitoring: differential monitor over every entry point of each backend, at run time and in generated programs","Values and format strings sampled; compares the library with itself and with the model."),
"C19":("runtime monitoring: counting global allocator while formatting into fixed buffers","Allocations counted per thread around every render; values sampled."),
"C20":("runtime monitoring: one probe program built and run in every configuration, outputs compared; bare programs without std or allocator","All 64 configurations and all feature sets of the single crates are built and run; what each renders is compared on a sample of documents."),
"C21":("sanitizers and runtime monitoring: AddressSanitizer, ThreadSanitizer, Miri and native stress of interleaved and concurrent writers","Schedules and inputs are sampled; Send and Sync are decided by the compiler on a probe. Trusts the sanitizers."),
"C22":("runtime monitoring: call logs of user-defined writers, values and restyles, checked against the operations made and the results returned","Operations, ways and answers enumerated one by one, histories sampled. Trusts the log of the user-defined implementations."),
"C23":("runtime monitoring with fault injection: panics at chosen values, restyles and sink calls, payload identity and state monitors afterwards","Every sink call of each work in turn, works and histories sampled; what a style change that panicked half-way leaves behind is not judged."),
"C24":("runtime monitoring: sinks shared with the monitor, looked at after every call; clones compared with models of their own","All pairs of styles and short histories with clones enumerated, longer histories sampled."),
"C25":("runtime monitoring: instruction counting (valgrind), call and allocation counters over workloads at n, 2n and 4n parts","About 30 families of workloads by writer at three sizes each; a ratio of growth above 2.6 is a violation. Constant factors are not judged."),
"C26":("runtime monitoring: the same generated program with stylish's and with std's macros, compiler verdicts and texts compared","A list of contexts in four editions with and without lints, random nestings of contexts; std's macro is the reference, what it rejects is not judged."),
}
checks=[]
for p in props:
    i=p['id']; t,n=T[i]
    checks.append(dict(property=i,quick_cmd=f"python3 run.py {i}",thorough_cmd=f"VERIF_TIER=thorough python3 run.py {i}",technique=t,level="fault_enumeration" if i in("C13","C14","C15","C16","C23") else "exploration",level_note=n))
json.dump(dict(version=1,setup_cmd="sh setup.sh",checks=checks,not_applicable=[],notes="No hooks in /repo: everything is observed through the public API. Findings and repairs: known-findings.txt and DESIGN.md."),open('/verif/MANIFEST.json','w'),indent=1)

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// propMeta says, for the evidence, what a property's runs are made of.
type propMeta struct {
	real string // components running the repository's own code
	stub string // components replaced by stand-ins
	rule string
}

const (
	stubNet  = "simulated network (in-memory connections, seeded chunking, back-pressure, cuts)"
	stubTime = "simulated clock and timers (package time)"
	stubSync = "goroutines, channels, select, mutexes and atomics run under the seeded scheduler"
	stubNS   = "recording file server (answers are a function of the request and the seed)"
	stubPeer = "raw model server written from the 9P2000 definition"
	stubCl   = "raw model clients written from the 9P2000 definition"
	stubOS   = "in-memory operating system (package os): page cache, durable state, errno injection, path record"
)

var meta = map[string]propMeta{
	"C01": {"protocol client, marshalling", stubPeer + "; " + stubNet, "a run is a seeded schedule of 1-8 concurrent callers against a model server that answers in seeded order"},
	"C02": {"protocol client, marshalling", stubPeer + "; " + stubNet, "a run is a seeded schedule of concurrent callers, in most runs with the tag pool drained to a few tags, so that callers wait for tags"},
	"C03": {"protocol client, marshalling", stubPeer + "; " + stubNet, "a run breaks the connection at a seeded byte of a seeded direction in a seeded way while calls are in flight"},
	"C04": {"protocol client, marshalling", stubPeer + " (hostile); " + stubNet, "a run mixes correct replies with seeded hostile ones (wrong tag, wrong type, wrong lengths)"},
	"C05": {"protocol client", stubNet, "a run lets concurrent callers draw fids under a seeded schedule that switches inside the increment"},
	"C06": {"protocol client and server, marshalling", stubPeer + ", " + stubCl + ", " + stubNS + "; " + stubNet, "a run makes the same calls or sends the same requests twice, whole and chunked, and compares"},
	"C07": {"protocol server (listener, connections, dispatch), marshalling", stubCl + "; " + stubNS + "; " + stubNet, "a run pipelines seeded requests (supported, unsupported, unknown) on 1-3 connections"},
	"C08": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubNS + "; " + stubOS + "; " + stubNet, "a run mixes well-formed requests with seeded mutations and cuts the stream at a seeded byte"},
	"C09": {"protocol server, marshalling", stubCl + "; " + stubNS + "; " + stubNet, "a run sends requests before and after a version request on several connections"},
	"C10": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubNS + "; " + stubOS + "; " + stubNet, "a run compares well-behaved connections with and without stalled, broken and garbage-sending neighbours"},
	"C11": {"protocol listener (Serve, Accept, Shutdown)", "simulated listeners; " + stubCl + "; " + stubNS + "; " + stubNet + "; " + stubTime, "a run feeds accept loops seeded sequences of connections, temporary and permanent errors, and shuts down at a seeded moment"},
	"C12": {"protocol client and server, marshalling", stubNS + "; " + stubNet, "a run has concurrent callers make calls with seeded extreme arguments through the real client and server"},
	"C13": {"protocol client and server, marshalling, debugfs, filesystem (ufs)", stubNS + "; " + stubOS + "; " + stubNet, "a run makes the same calls with and without seeded diagnostics and compares"},
	"C14": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history of requests on 1-3 sessions, judged request by request against a reference model of fids"},
	"C15": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history of reads and writes on 1-3 sessions, private and shared files, with disk faults"},
	"C16": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run lists directories with seeded counts while other sessions create, remove and rename entries"},
	"C17": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + " (records every path named; nothing real is reachable)", "a run is a seeded history of requests with hostile names"},
	"C18": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history of attribute changes with seeded subsets of attributes and disk faults"},
	"C19": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run writes, syncs and crashes the machine at a seeded moment; unsynced changes are lost, kept or torn by seed"},
	"C20": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history in which every identity and attribute reported is compared with the simulated disk"},
	"C21": {"protocol server, marshalling, filesystem (ufs), debugfs", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history with disk faults in which the open operating-system files are counted after every reply and after the connections end in seeded ways"},
	"C22": {"protocol server, marshalling, filesystem (ufs)", stubCl + "; " + stubOS + "; " + stubNet, "a run is a seeded history of creates and removes with disk faults, the tree compared before and after each"},
}

func writeEvidence(prop, tier string, seed uint64, r *Result, distinct, all, nd, diff int, secs, wall, tBuild, total float64, violations int) {
	m := meta[prop]
	faults := map[string]int{}
	other := map[string]int{}
	scen := map[string]int{}
	for k, v := range r.Counts {
		switch {
		case strings.HasPrefix(k, "fault:"):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "scenario:"):
			scen[k[9:]] = v
		default:
			other[k] = v
		}
	}
	samples := r.Samples
	if len(samples) > 130 {
		samples = samples[:130]
	}
	if len(samples) == 0 {
		samples = []string{fmt.Sprintf("seed %d", seed)}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(r.Runs) / wall * 3600
	}
	real := strings.Split(m.real, ", ")
	stub := append(strings.Split(m.stub, "; "), stubSync)
	sort.Strings(real)
	ev := map[string]interface{}{
		"property":   prop,
		"tier":       tier,
		"seed":       seed,
		"level":      "exploration",
		"wall_s":     total,
		"violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":         r.Runs,
			"distinct_nontrivial": distinct,
			"rule": m.rule + ". Two runs are the same when the hash over every scheduling decision, choice and logged event is the same; a run counts as non-trivial when it was judged to its end, " +
				"made at least one scheduling choice among several runnable tasks and logged at least one message or call",
			"samples":                               samples,
			"runs_and_seeds_per_hour":               int64(perHour),
			"simulated_seconds":                     r.SimTime.Seconds(),
			"scheduler_steps":                       r.Steps,
			"most_steps_in_a_run":                   r.MaxSteps,
			"most_steps_without_progress":           r.MaxQuiet,
			"choices_made":                          r.Choices,
			"faults_injected":                       faults,
			"scenarios":                             scen,
			"other_counts":                          other,
			"runs_reaching_each_count":              r.RunCounts,
			"runs_abandoned_other_property":         r.Abandoned,
			"abandoned_reasons":                     r.Reasons,
			"known_finding_runs":                    r.Known,
			"hashes_recorded":                       all,
			"seeds_repeated_in_two_other_processes": nd,
			"of_those_different":                    diff,
			"components_real":                       real,
			"components_stub":                       stub,
			"build_seconds":                         tBuild,
			"search_seconds":                        wall,
		},
		"assumptions": []string{
			"The instrumenter preserves what the code does: it replaces go statements, channel operations, select, map iteration and the packages sync, sync/atomic, time, os, io/ioutil, path/filepath and log by stand-ins of the same meaning, and adds yield points.",
			"Simulated os and network behave like Linux and TCP as far as the code can tell (the stand-ins were compared with the real ones where that is possible; see DESIGN.md).",
			"A search over seeds finds violations; that none was found is evidence for the runs made, not a proof.",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

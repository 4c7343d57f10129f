package cmdx

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/vsym"
	"github.com/filecoin-project/storetheindex/internal/vsym/ingx"
)

// setting is a setting in the configuration file.
type setting struct {
	section, name string
	zero          int // what zero means
	number        func(*config.Config) *int
	text          func(*config.Config) *string
	time          func(*config.Config) *config.Duration
	flag          func(*config.Config) *bool
}

const (
	usual = iota // zero means the usual value
	asIs         // zero means zero
	open         // it is not said what zero means
)

var settings = []setting{
	{section: "Addresses", name: "Admin", text: func(c *config.Config) *string { return &c.Addresses.Admin }},
	{section: "Addresses", name: "Finder", text: func(c *config.Config) *string { return &c.Addresses.Finder }},
	{section: "Addresses", name: "Ingest", text: func(c *config.Config) *string { return &c.Addresses.Ingest }},
	{section: "Addresses", name: "P2PAddr", text: func(c *config.Config) *string { return &c.Addresses.P2PAddr }},
	{section: "Addresses", name: "NoResourceManager", flag: func(c *config.Config) *bool { return &c.Addresses.NoResourceManager }},
	{section: "Bootstrap", name: "MinimumPeers", zero: asIs, number: func(c *config.Config) *int { return &c.Bootstrap.MinimumPeers }},
	{section: "Datastore", name: "Dir", text: func(c *config.Config) *string { return &c.Datastore.Dir }},
	{section: "Datastore", name: "Type", text: func(c *config.Config) *string { return &c.Datastore.Type }},
	{section: "Discovery", name: "LotusGateway", zero: open, text: func(c *config.Config) *string { return &c.Discovery.LotusGateway }},
	{section: "Discovery", name: "PollInterval", zero: usual, time: func(c *config.Config) *config.Duration { return &c.Discovery.PollInterval }},
	{section: "Discovery", name: "PollRetryAfter", zero: usual, time: func(c *config.Config) *config.Duration { return &c.Discovery.PollRetryAfter }},
	{section: "Discovery", name: "PollStopAfter", zero: usual, time: func(c *config.Config) *config.Duration { return &c.Discovery.PollStopAfter }},
	{section: "Discovery", name: "RediscoverWait", zero: asIs, time: func(c *config.Config) *config.Duration { return &c.Discovery.RediscoverWait }},
	{section: "Discovery", name: "Timeout", zero: usual, time: func(c *config.Config) *config.Duration { return &c.Discovery.Timeout }},
	{section: "Indexer", name: "CacheSize", number: func(c *config.Config) *int { return &c.Indexer.CacheSize }},
	{section: "Indexer", name: "ConfigCheckInterval", time: func(c *config.Config) *config.Duration { return &c.Indexer.ConfigCheckInterval }},
	{section: "Indexer", name: "GCInterval", time: func(c *config.Config) *config.Duration { return &c.Indexer.GCInterval }},
	{section: "Indexer", name: "ShutdownTimeout", time: func(c *config.Config) *config.Duration { return &c.Indexer.ShutdownTimeout }},
	{section: "Indexer", name: "ValueStoreDir", text: func(c *config.Config) *string { return &c.Indexer.ValueStoreDir }},
	{section: "Indexer", name: "ValueStoreType", text: func(c *config.Config) *string { return &c.Indexer.ValueStoreType }},
	{section: "Ingest", name: "AdvertisementDepthLimit", number: func(c *config.Config) *int { return &c.Ingest.AdvertisementDepthLimit }},
	{section: "Ingest", name: "EntriesDepthLimit", number: func(c *config.Config) *int { return &c.Ingest.EntriesDepthLimit }},
	{section: "Ingest", name: "HttpSyncRetryMax", zero: open, number: func(c *config.Config) *int { return &c.Ingest.HttpSyncRetryMax }},
	{section: "Ingest", name: "HttpSyncRetryWaitMax", zero: open, time: func(c *config.Config) *config.Duration { return &c.Ingest.HttpSyncRetryWaitMax }},
	{section: "Ingest", name: "HttpSyncRetryWaitMin", zero: open, time: func(c *config.Config) *config.Duration { return &c.Ingest.HttpSyncRetryWaitMin }},
	{section: "Ingest", name: "HttpSyncTimeout", zero: open, time: func(c *config.Config) *config.Duration { return &c.Ingest.HttpSyncTimeout }},
	{section: "Ingest", name: "IngestWorkerCount", zero: open, number: func(c *config.Config) *int { return &c.Ingest.IngestWorkerCount }},
	{section: "Ingest", name: "PubSubTopic", zero: open, text: func(c *config.Config) *string { return &c.Ingest.PubSubTopic }},
	{section: "Ingest", name: "ResendDirectAnnounce", flag: func(c *config.Config) *bool { return &c.Ingest.ResendDirectAnnounce }},
	{section: "Ingest", name: "StoreBatchSize", zero: open, number: func(c *config.Config) *int { return &c.Ingest.StoreBatchSize }},
	{section: "Ingest", name: "SyncSegmentDepthLimit", number: func(c *config.Config) *int { return &c.Ingest.SyncSegmentDepthLimit }},
	{section: "Ingest", name: "SyncTimeout", zero: open, time: func(c *config.Config) *config.Duration { return &c.Ingest.SyncTimeout }},
	{section: "Logging", name: "Level", text: func(c *config.Config) *string { return &c.Logging.Level }},
}

// value is what a setting is set to, for the file.
func (s *setting) value(k int, n int) interface{} {
	switch {
	case s.number != nil:
		if k == 1 {
			return 0
		}
		return n
	case s.text != nil:
		if k == 1 {
			return ""
		}
		return "x"
	case s.time != nil:
		if k == 1 {
			return "0s"
		}
		return "1h1m"
	}
	return k == 2
}

// check compares a setting with what was set: 0 nothing, 1 zero, 2 a value.
func (s *setting) check(c, d *config.Config, k int, n int) {
	ok := true
	if k == 1 && s.zero == open {
		return
	}
	byDefault := k == 0 || k == 1 && s.zero == usual
	switch {
	case s.number != nil:
		want := n
		if k == 1 {
			want = 0
		}
		if byDefault {
			want = *s.number(d)
		}
		ok = *s.number(c) == want
	case s.text != nil:
		want := "x"
		if byDefault {
			want = *s.text(d)
		}
		ok = *s.text(c) == want
	case s.time != nil:
		want := config.Duration(61 * time.Minute)
		if k == 1 {
			want = 0
		}
		if byDefault {
			want = *s.time(d)
		}
		ok = *s.time(c) == want
	default:
		want := k == 2
		if k == 0 {
			want = *s.flag(d)
		}
		ok = *s.flag(c) == want
	}
	vsym.Assert(ok, "what is set in the configuration file is used, and what is not has its usual value: "+s.name)
}

// VerifSettings: a configuration that is loaded has every setting as it is in
// the file, and those that are not in the file as documented; saving it,
// upgrading it and loading it again changes nothing.
func VerifSettings() {
	vsym.NoTimers()
	vsym.Handles()
	d, err := config.InitWithIdentity(config.Identity{})
	if err != nil {
		panic(err)
	}
	one := vsym.Choice("setting", len(settings)+2)
	how := 2
	if one < len(settings) {
		how = 1 + vsym.Choice("how", 2)
	}
	n := vsym.Int("number", -1<<40, 1<<40)
	vsym.Assume(n != 0)
	version := 1 + vsym.Choice("version", 3)
	doc := map[string]interface{}{"Version": version}
	set := make([]int, len(settings))
	for i := range settings {
		s := &settings[i]
		// One, all, or none.
		if i != one && one != len(settings) {
			continue
		}
		set[i] = how
		sec, _ := doc[s.section].(map[string]interface{})
		if sec == nil {
			sec = map[string]interface{}{}
			doc[s.section] = sec
		}
		sec[s.name] = s.value(how, n)
	}
	// The policy, and what else has sections of its own.
	policy := vsym.Choice("policy", 3)
	if policy != 0 {
		sec, _ := doc["Discovery"].(map[string]interface{})
		if sec == nil {
			sec = map[string]interface{}{}
			doc["Discovery"] = sec
		}
		sec["Policy"] = map[string]interface{}{"Allow": policy == 2, "Except": []string{idA}, "Publish": policy == 1, "PublishExcept": []string{idB}}
	}
	b, err := json.Marshal(doc)
	if err != nil {
		panic(err)
	}
	dir := "/indexer"
	if !vsym.Symbolic() {
		dir, err = os.MkdirTemp("", "verif-config")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
	}
	name := filepath.Join(dir, "config")
	put(name, string(b))
	verify := func(c *config.Config, version int) {
		vsym.Assert(c.Version == version, "the version is that of the file")
		for i := range settings {
			settings[i].check(c, d, set[i], n)
		}
		p := c.Discovery.Policy
		switch policy {
		case 0:
			vsym.Assert(p.Allow == d.Discovery.Policy.Allow && len(p.Except) == 0 && p.Publish == d.Discovery.Policy.Publish && len(p.PublishExcept) == 0, "the policy is the usual one")
		default:
			vsym.Assert(p.Allow == (policy == 2) && len(p.Except) == 1 && p.Except[0] == idA && p.Publish == (policy == 1) && len(p.PublishExcept) == 1 && p.PublishExcept[0] == idB, "the policy is that of the file")
		}
	}
	c, err := config.Load(name)
	vsym.Assert(err == nil, "a configuration file is loaded")
	verify(c, version)
	vsym.Reach("loaded")
	if vsym.Flip("upgrade") {
		vsym.Assert(c.UpgradeConfig(name) == nil, "a configuration is upgraded")
		old, err := config.Load(name + ".v" + strconv.Itoa(version))
		vsym.Assert(err == nil, "the configuration before an upgrade is kept")
		verify(old, version)
		version = config.Version
		vsym.Reach("upgraded")
	} else {
		vsym.Assert(c.Save(name) == nil, "a configuration is saved")
	}
	c, err = config.Load(name)
	vsym.Assert(err == nil, "a configuration file is loaded again")
	verify(c, version)
	vsym.Reach("loaded again")
}

func put(name, text string) {
	if vsym.Symbolic() {
		ingx.SetFile(name, text)
		return
	}
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic(err)
	}
}

var writing = map[*os.File]string{}

//vsym:replace os.Create
func mCreate(name string) (*os.File, error) {
	f := &os.File{}
	writing[f] = name
	ingx.SetFile(name, "")
	return f, nil
}

//vsym:replace (*os.File).Write
func mWrite(f *os.File, b []byte) (int, error) {
	ingx.SetFile(writing[f], ingx.File(writing[f])+string(b))
	return len(b), nil
}

//vsym:replace os.MkdirAll
func mMkdirAll(path string, perm os.FileMode) error { return nil }

//vsym:replace os.Rename
func mRename(from, to string) error {
	ingx.SetFile(to, ingx.File(from))
	ingx.SetFile(from, "")
	return nil
}

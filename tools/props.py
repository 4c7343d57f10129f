REG = 'internal/registry/registry.go'
ING = 'internal/ingest/ingest.go'
LSYS = 'internal/ingest/linksystem.go'
ENV = 'Trusted: the symbolic executor, z3, the datastore/clock/crypto/text models listed in DESIGN.md.'
PROPS = [
dict(id='C03', title='Signed requests are accepted at most once',
 statement='The service accepts a signed registration, discovery or content request of a peer only if its sequence number is newer than every one accepted from that peer before and not older than the maximum age; the same request presented again, at any later time, by any interleaving of requests and of the housekeeping that forgets old sequence numbers, is refused. The refusal of one request never makes a fresh one be refused.',
 over=['inputs','schedules','histories'], quant='all sequence numbers, clock readings, maximum ages, orders of requests and of housekeeping, and thread interleavings of concurrent requests, within 4 requests (history) and 2 racing requests plus housekeeping',
 tests='The tests try three sequence numbers against one clock; they reach neither the boundary between the age test and housekeeping nor concurrent presentation.',
 files=['internal/registry/sequences.go', REG], mech=[('sequences.check/retire','internal/registry/sequences.go'),('Registry.CheckSequence, cleanup',REG)], observe=['Registry.CheckSequence'],
 note='Exhaustive within 4-5 requests, symbolic 64-bit times. '+ENV),
dict(id='C05', title='Allow/publish policy decisions follow the configuration and later updates',
 statement='Whether a peer may provide, publish, or be rate limited is at every moment exactly what the configured default and exception lists say after the operator\'s later allow and block commands have been applied in order; a configuration with a malformed peer or a negative rate is rejected and replaces nothing. A sync of a publisher that is to be rate limited runs at the configured rate and any other without limit.',
 over=['inputs','histories','configurations'], quant='all configurations with up to 2 exceptions per list (any defaults, repeated and malformed entries) and all histories of up to 3 allow/block/copy/reconfigure commands over arbitrary peers',
 tests='The tests exercise a handful of fixed peers and never sequences of allow, block and reconfiguration.',
 files=['internal/registry/policy/policy.go','peerutil/policy.go','config/policy.go',ING], mech=[('SetRateLimit, getRateLimiter',ING),('Policy','internal/registry/policy/policy.go'),('peerutil.Policy','peerutil/policy.go')], observe=['policy.Policy methods'],
 note='Differential against a reference model, exhaustive within the bounds. '+ENV),
dict(id='C06', title='No registration bypasses the policy',
 statement='A provider becomes registered (by request, by an advertisement, by discovery or by import from another indexer) only if the policy in force allows that provider, and a provider, new or known, gets a publisher other than itself only if the policy allows that publisher and lets it publish for others (an update of a registered provider that brings no new publisher is not a new admission); a refused request changes nothing that is stored or visible. An accepted one leaves exactly the identity, addresses, publisher and latest advertisement that it carried, together with what it did not mention; requests about a provider that come at the same time take effect one after the other, none undoing another; every imported provider is then synced; and no input makes registration crash.',
 over=['inputs','histories','configurations','schedules'], quant='all policies with up to 2 exceptions per list and all histories of up to 2-3 registrations, updates, discoveries and policy changes, an update racing with another one, a removal or a discovery (2 delays), imports of up to 2 providers, and any one request met by two registered providers after any policy change, over arbitrary providers, publishers, addresses and advertisement CIDs',
 tests='The tests use fixed peers, one operation per registry and almost never a publisher that is not the provider.',
 files=[REG,'internal/registry/policy/policy.go'], mech=[('Registry.RegisterOrUpdate, Register, Discover, ImportProviders',REG)], observe=['ProviderInfo','AllProviderInfo','RegisterOrUpdate error'],
 note='Differential against a reference model of the registry, exhaustive within 2 operations (thorough: 3). '+ENV),
dict(id='C07', title='Acknowledged registrations survive restart and crash',
 statement='Once a registration or update has been acknowledged it is there, unchanged, after a restart and after a crash at any point, whatever was written since; a registration interrupted by a crash is afterwards either wholly absent or wholly present; and if storage fails the caller is told and no provider becomes lost or mixed up.',
 over=['crash_points','histories','inputs','fault_sequences'], quant='all crash points between storage operations, all subsets of unsynced writes surviving, one storage fault at any point, and all histories of up to 2 operations over arbitrary providers, addresses, publishers and CIDs',
 tests='The tests restart one registry once, cleanly, with one provider; no test crashes or fails storage.',
 files=[REG], mech=[('syncPersistProvider, loadPersistedProviders, ProviderInfo JSON',REG)], observe=['ProviderInfo after NewRegistry'],
 note='Crash image and surviving unsynced writes are symbolic; exhaustive within the bounds. '+ENV),
dict(id='C08', title='Removing a provider removes it everywhere and for good',
 statement='When the removal of a provider succeeds the provider is neither listed nor found nor reloaded after a restart, no other provider is affected, the ingester is told once, and the provider can register afresh without inheriting anything of its earlier registration; when it fails the provider stays registered so that it can be retried.',
 over=['histories','inputs','fault_sequences'], quant='all histories of registrations and removals of two arbitrary providers with a storage fault at any point',
 tests='The tests remove one provider once with storage that always works.',
 files=[REG], mech=[('RemoveProvider, syncRemoveProvider',REG)], observe=['ProviderInfo','AllProviderInfo','SyncChan'],
 note='Exhaustive within the bounds. '+ENV),
dict(id='C09', title='Silent providers are polled, hidden and removed on their own schedule',
 statement='A provider is polled only after its own poll interval without contact, hidden only after its own retries and removed only after its own stop time without contact, where settings for a particular provider apply to that provider alone; a due provider is polled unless the ingester is busy, one that answers is visible again at once, one that was removed stays removed after a restart and nobody else is affected.',
 over=['inputs','histories','schedules','configurations'], quant='all poll settings and overrides (any durations), all clock readings, 2 providers heard from or not, up to 2-3 polls with contact in between',
 tests='The tests poll one provider with two fixed settings and wait for real time.',
 files=[REG,'config/discovery.go'], mech=[('runPollCheck, pollProviders',REG)], observe=['SyncChan','ProviderInfo','IsRegistered'],
 note='Symbolic 64-bit durations and instants, decided in linear integer arithmetic. '+ENV),
dict(id='C16', title='Find returns exactly the visible records of each multihash',
 statement='A find request returns, for each requested multihash in order, every record the index holds for it whose provider is registered and visible, with that provider\'s identity, addresses and the record\'s own context ID and metadata, and nothing else; multihashes without such records are omitted; if the index cannot be read the caller gets an error and never a partial answer passed off as whole. Records are deleted by a lookup only if their provider is not registered at all. Provider listings show each visible provider once with what is registered for it. A delegated (reframe) lookup returns the visible providers that have the content by bitswap, with their addresses.',
 over=['inputs','histories','fault_sequences'], quant='all requests of up to 2 multihashes over all index contents of up to 2 records per multihash, providers registered, hidden or unknown, and an index fault at any point',
 tests='The tests look up records of a single registered provider and never an inactive or removed one.',
 files=['server/finder/handler/finder_handler.go','server/reframe/reframe.go',REG], mech=[('FinderHandler.Find, ListProviders, GetProvider','server/finder/handler/finder_handler.go')], observe=['FinderHandler.Find response','index contents'],
 note='Differential against a reference model, exhaustive within the bounds. '+ENV),
] + [
dict(id='C01', title='Only authentic, admitted advertisements have an effect',
 statement='Whoever serves it, an advertisement changes the index or registers a provider only if it is signed, exactly as it stands, by the provider it names or by a peer that may publish for others, the policy allows that provider, and the peer it was fetched from is the provider or an allowed peer that may publish for it; content is attributed to the provider the advertisement names. An advertisement that meets all this does take effect.',
 over=['inputs','configurations'], quant='all publishers, signers, providers and policies with one exception per list, all ways of changing one field of a signed advertisement or its signature, and an earlier advertisement in the chain or none',
 tests='The tests try one wrong signer; they do not vary policy, signer, provider and publisher against each other or change single fields.',
 files=[ING,LSYS,'api/v0/ingest/schema/envelope.go',REG], mech=[('verifyAdvertisement, ingestAd, allowPublish',LSYS),('Registry.RegisterOrUpdate',REG)], observe=['index contents','Registry.ProviderInfo'],
 note='Real ingester and registry over a modelled network, IPLD store and signatures; exhaustive within the bounds. '+ENV),
dict(id='C10', title='No advertisement is lost or applied twice, whatever fails',
 statement='Whatever transient failures of network, index or datastore interrupt the ingestion of an advertisement chain, the advertisements take effect in the order of the chain, a later sync without failures ingests all that is missing, and the index then answers exactly as the chain says; an advertisement that can never be ingested is passed over and those after it take effect; without failures nothing is ingested a second time.',
 over=['fault_sequences','histories','inputs'], quant='all chains of up to 3 advertisements of any kind (content in one or two chunks, removals, metadata updates, malformed content) over any contexts, one failure of network and one of the index, or one of the datastore, at any point, both transports, with and without segmented sync, new advertisements published between the syncs',
 tests='The tests sync a few healthy chains and one with a bad chunk; none fails storage, index or network in mid-chain.',
 files=[ING,LSYS], mech=[('runIngestStep, ingestWorkerLogic, markAdProcessed, adAlreadyProcessed',ING),('ingestAd, ingestEntryChunk',LSYS)], observe=['Ingester.Sync result','index contents','GetLatestSync'],
 note='Differential against a reference index, exhaustive within the bounds under one scheduling policy (no preemption; concurrency is C12, C13, C24). '+ENV),
dict(id='C11', title='Ingestion resumes after a crash without loss',
 statement='After a crash at any point of the ingestion of a chain, and whatever unsynced datastore writes survive it, restarting and syncing again brings the index to exactly what the chain says; after an orderly shutdown the latest sync is remembered and nothing is ingested again.',
 over=['crash_points','histories','inputs'], quant='all crash points between operations of either datastore, all subsets of unsynced writes surviving, chains of up to 2 advertisements of any kind over any contexts; the index losing its last unflushed operation or not',
 tests='No test crashes; one restarts an ingester after a complete sync.',
 files=[ING,LSYS,REG], mech=[('markAdProcessed, GetLatestSync, NewIngester',ING)], observe=['index contents after restart','GetLatestSync'],
 note='Crash image symbolic, at most one crash. One known finding (index not flushed before an advertisement is marked processed). '+ENV),
dict(id='C12', title='Advertisements of a provider take effect in chain order',
 statement='With any number of workers, and with syncs and announcements of several publishers of the same chain at the same time, the advertisements of a provider take effect one after the other in the order of the chain and each once, so that a removal is never overtaken by the content it follows or precedes; in the end the index answers as the chain says.',
 over=['schedules','inputs'], quant='all interleavings with at most 2 delays of the round-robin schedule at the synchronisation points of the ingester, chains of 3 advertisements (content, removal, content), 2 workers, 2 syncs or a sync and an announcement of any advertisement, by the same publisher or by two',
 tests='The tests run one schedule, mostly with one publisher at a time.',
 files=[ING], mech=[('runIngestStep, ingestWorker, ingestWorkerLogic, releaseProvider',ING)], observe=['order of index operations','index contents'],
 note='Delay-bounded schedules (a scheduler delay is a symbolic variable at each point), exhaustive within the bound. '+ENV),
dict(id='C13', title='Every sync ends and is reported truthfully',
 statement='Every explicit sync ends and its channel is closed, whatever the publisher answers, whatever fails, whichever other sync runs or is cancelled; when it reports an advertisement, that is the publisher\'s head and the index already answers as the chain up to it says. It reports once.',
 over=['schedules','fault_sequences','histories'], quant='two overlapping or consecutive syncs, cancelled at any point, with one failure of network, index or datastore at any point, chains of up to 3 advertisements, head moving forward or back, other publishers, resync and depth limit; schedules with up to 1-2 delays',
 tests='The tests wait for one sync at a time and cancel one before it starts.',
 files=[ING], mech=[('Sync, distributeEvents, onAdProcessed, adProcessedEvent',ING)], observe=['Ingester.Sync channel'],
 note='Delay-bounded schedules; a deadlock is a violation. '+ENV),
dict(id='C14', title='An advertisement does to the index what it says, and only that',
 statement='Ingesting an advertisement adds exactly the multihashes of its entry chunks or its HAMT, whatever their size, number, depth and the configured batch size, under its provider and context with its metadata; a removal removes exactly that provider\'s context; a metadata update replaces the metadata; other contexts and providers, and content named already, stay as they are; bytes that are no multihash are passed over. No batch exceeds the configured size, and nothing of the advertisement\'s blocks stays behind in the datastore. The provider is then registered with its publisher and that advertisement.',
 over=['inputs','configurations'], quant='all advertisements of up to 2 chunks of up to 2-3 entries (new, repeated, invalid) or a HAMT of up to 3 levels, batch sizes 1-3, arbitrary provider, context IDs and other contents of the index',
 tests='The tests ingest some fixed chunk chains and one HAMT with one batch size, never next to other contents that share the context ID.',
 files=[LSYS,ING], mech=[('ingestAd, ingestEntryChunk, ingestHamtFromPublisher, indexAdMultihashes',LSYS)], observe=['index contents','datastore contents'],
 note='Differential against a reference index, exhaustive within the bounds. '+ENV),
dict(id='C24', title='Announcements of allowed publishers are followed and never lost',
 statement='An announcement sent to the indexer is accepted if it is well formed and of one publisher that the policy allows, and is then fetched from that publisher alone; otherwise it is refused (as forbidden if the policy is the reason) and nothing is fetched and nothing changes. Once nothing is going on any more, everything up to the last advertisement announced by an allowed publisher has taken effect, however announcements interleave with the ingestion of earlier ones.',
 over=['schedules','histories','inputs'], quant='all addresses and policies of a direct announcement with up to 2 addresses; 3 announcements of a growing chain, all interleavings with at most 3 delays at the synchronisation points of the ingester',
 tests='The tests announce one head and wait until it is ingested.',
 files=[ING,'server/ingest/handler/ingest_handler.go'], mech=[('Announce, handlePendingAnnounce, releaseProvider',ING),('IngestHandler.Announce','server/ingest/handler/ingest_handler.go')], observe=['index contents','GetLatestSync'],
 note='Delay-bounded schedules, exhaustive within the bound. '+ENV),
dict(id='C25', title='A malformed advertisement harms nothing but itself',
 statement='A signed advertisement that is malformed in whatever way (entries that are neither chunks nor a HAMT, a HAMT whose bitmap and elements disagree, bad links, bad addresses, missing metadata or context) crashes nothing, adds at most the content it names, and keeps neither the advertisements before nor those after it from taking effect; a block that is no advertisement has no effect.',
 over=['inputs'], quant='26 kinds of malformation with any publisher and address, in the middle or at the head of a chain of up to 3, with and without segmented sync',
 tests='The tests have one kind of malformed chunk.',
 files=[LSYS,ING], mech=[('loadEntryChunk, loadHamt, ingestHamtFromPublisher',LSYS),('ingestWorkerLogic error classification',ING)], observe=['index contents','Ingester.Sync result'],
 note='Exhaustive within the listed malformations. '+ENV),
dict(id='C28', title='The ingester can be closed at any time',
 statement='Closing the ingester at any point of syncs and announcements ends, ends every sync, and nothing is ingested afterwards; what was ingested by then is a prefix of the chain, and the next run carries on from there. Closing it again does no harm.',
 over=['schedules'], quant='a sync or an announcement of a chain of 2 advertisements, closing (once, or twice at the same time) at any point, all interleavings with at most 3 delays at the synchronisation points of the ingester',
 tests='The tests close ingesters that are idle.',
 files=[ING], mech=[('Close, cancelSyncs, closePendingSyncs, closeWorkers',ING)], observe=['Ingester.Close','Ingester.Sync channel','index contents'],
 note='Delay-bounded schedules; a deadlock, panic or leak is a violation. '+ENV),
dict(id='C02', title='An advertisement signature covers the whole advertisement',
 statement='The signature of an advertisement names exactly the peer that signed it, and is accepted for no advertisement that differs from the signed one in previous advertisement, entries, provider, addresses, metadata, context ID or the removal flag; nobody can produce a signature that is taken for somebody else\'s.',
 over=['inputs'], quant='all pairs of advertisements with up to 2 addresses over arbitrary field values (opaque values of any length with equal structure; byte by byte for short fields whose boundaries move), all signers and forgers',
 tests='One test signs one advertisement and changes one field.',
 files=['api/v0/ingest/schema/envelope.go'], mech=[('Advertisement.Sign, VerifySignature, signaturePayload','api/v0/ingest/schema/envelope.go')], observe=['Advertisement.VerifySignature'],
 note='Signatures and hashes are ideal. Two known findings (context ID not covered, field boundaries not covered). '+ENV),
dict(id='C15', title='Depth limits and resync ingest exactly what was asked for',
 statement='A sync of limited depth, by request or by configuration, ingests exactly that many of the newest advertisements, and a later sync carries on from there; a resync makes all advertisements, or the newest, take effect again in the order of the chain, also if the index had lost everything, and one that failed is made good by the next; content beyond the configured number of entry chunks is left out and nothing else is.',
 over=['inputs','histories','configurations','fault_sequences'], quant='chains of up to 2-3 advertisements of any kind over any contexts, all depths, resync with and without depth, one failure of network or index at any point of a resync, up to 4 entry chunks and all limits',
 tests='The tests resync two or three fixed chains.',
 files=[ING,LSYS], mech=[('Sync, makeLimitedDepthSelector, markAdUnprocessed',ING)], observe=['Ingester.Sync result','index contents'],
 note='Differential against a reference index, exhaustive within the bounds. '+ENV),
dict(id='C21', title='Polled providers are synced; removed ones leave nothing behind',
 statement='When a provider that was not heard of is polled, its last known publisher is asked and what it published since takes effect; a publisher that answers keeps its provider registered and visible even if it has nothing new. When a provider is removed nothing is left of its syncs, and when it comes back it has all its content again.',
 over=['histories','inputs','schedules'], quant='up to 2 polls at any instants, provider and publisher the same or not, with and without a new advertisement; removal, with and without loss of content by lookups, restart and new advertisements in between',
 tests='One test polls one provider that has nothing new and looks only at the call.',
 files=[ING,REG], mech=[('autoSync, removePublisher',ING),('pollProviders',REG)], observe=['index contents','GetLatestSync','Registry.ProviderInfo'],
 note='Symbolic clock. One known finding (advertisements stay marked processed when a provider is removed). '+ENV),
]
HND = 'server/ingest/handler/ingest_handler.go'
PROPS += [
dict(id='C04', title='A request takes effect only if its provider signed it and is allowed',
 statement='A registration, discovery or content request takes effect only if the envelope is intact, was made for that kind of request, and is signed by the very provider it names, that provider is allowed by the policy in force at that moment (also if it registered before it was blocked), and the request is newer than any accepted from it before; then the provider is registered with the addresses of the request (or those discovered) and content is indexed exactly as asked, within the limits on context ID and metadata. Any other request is refused with a status that tells a forbidden from a bad request, changes nothing, and gets in the way of no later request of the provider.',
 over=['inputs','histories','configurations'], quant='all three kinds of request, all providers, signers, addresses, contents and policies with one exception, six ways of making a request that is not authentic, followed by any request with the same or an earlier sequence number, or by blocking and allowing the provider',
 tests='The tests send well-formed requests signed by their own provider, and one with a bad sequence number.',
 files=['api/v0/ingest/model/ingest_request.go','api/v0/ingest/model/register_request.go','api/v0/ingest/model/discover_request.go',HND,REG], mech=[('ReadIngestRequest, ReadRegisterRequest, ReadDiscoverRequest','api/v0/ingest/model'),('IngestHandler.RegisterProvider, DiscoverProvider, IndexContent',HND)], observe=['IngestHandler results','Registry.ProviderInfo','index contents'],
 note='Real handlers and registry; signatures are ideal. '+ENV),
dict(id='C17', title='Clients are told what the indexer knows, over HTTP and libp2p alike',
 statement='The answer a client gets to a lookup (single or batch), a request for one provider, for all providers or for statistics is what the indexer knows, the same over HTTP and over libp2p; when there are no results, when the request is malformed and when the indexer fails the client can tell which, by an error or the status of the response, and it never takes a failure for an empty answer. A failure inside the indexer is not described to the client, and JSON is marked as such.',
 over=['inputs','fault_sequences','configurations'], quant='one or two multihashes that are indexed or not, a provider that is registered or not, over both transports, with and without a failing index, seven kinds of HTTP request',
 tests='The tests look up content that is there, by one transport at a time, and hardly look at statuses or headers.',
 files=['server/finder/http/handler.go','server/finder/libp2p/handler.go','api/v0/finder/client/http/client.go','api/v0/finder/client/libp2p/client.go','internal/httpserver/util.go','server/finder/handler/finder_handler.go'], mech=[('httpHandler.find*, list/getProvider','server/finder/http/handler.go'),('libp2pHandler','server/finder/libp2p/handler.go'),('finder clients','api/v0/finder/client')], observe=['finder client results','HTTP status and headers'],
 note='Real clients against real servers; net/http, mux and libp2p streams are stand-ins. '+ENV),
dict(id='C18', title='Every request over libp2p gets its own answer or an error',
 statement='A request over libp2p gets the answer to that request, or an error, never the answer to another one, even if an earlier request on the same client was cancelled or timed out while its answer was on its way, and however two users of one client interleave; what is not a message is neither handled nor answered. What a provider asks for through the ingest clients, by HTTP or libp2p, is done, or the provider is told that it was not and whether it is forbidden or the indexer failed.',
 over=['schedules','fault_sequences','inputs'], quant='3 requests in a row of which the first is cancelled or times out at any point, 2 concurrent requests, all interleavings with at most 2-3 delays at the synchronisation points of client and server; registrations and content of any provider, allowed or blocked, with and without index failure',
 tests='The tests send one request after another over streams that work.',
 files=['api/v0/libp2pclient/client.go','internal/libp2pserver/server.go','server/ingest/libp2p/handler.go','server/ingest/http/handler.go','api/v0/ingest/client/http/ingest.go','api/v0/ingest/client/libp2p/client.go'], mech=[('Client.SendRequest, ctxReadMsg','api/v0/libp2pclient/client.go'),('Server.handleNewMessages','internal/libp2pserver/server.go')], observe=['libp2pclient.SendRequest','ingest client results'],
 note='Delay-bounded schedules over modelled streams. '+ENV),
dict(id='C22', title='The indexer does what the operator tells it to, and says so',
 statement='When the operator allows or blocks a peer through the admin API the policy in force says so from then on, for that peer alone; a sync the operator asks for is done for that peer, with that depth and address, or again from the start if so asked; an import that is reported successful has indexed every CID that the list or manifest names, of any version and however its lines end, under the given provider, context and metadata and nothing else, and one that finds nothing or fails on the way is reported as failed; the outcome of a reload of the configuration is reported truthfully.',
 over=['inputs','histories','fault_sequences'], quant='up to 2 commands about any peer under any default policy; syncs of any depth with and without resync and address; lists and manifests of 3 lines of 3 kinds each with any line ends, of up to 513 lines around the batch size, and index failures at any batch',
 tests='No test covers the admin commands or imports.',
 files=['server/admin/http/handler.go','api/v0/admin/client/http/client.go','internal/importer/cidlist.go','internal/importer/manifest.go'], mech=[('adminHandler','server/admin/http/handler.go'),('ReadCids, ReadManifest','internal/importer')], observe=['admin client results','Registry.Allowed','index contents'],
 note='Real admin client, server, registry and ingester; net/http, mux and files are stand-ins. '+ENV),
dict(id='C19', title='A reload of the configuration applies all of it or none, and harms nothing',
 statement='However a reload is asked for (signal, admin request, changed file), in whatever sequence and at whatever moment: a good file takes effect (policy, rate limits, number of ingest workers, peers to stay connected with, log level, how often the file is looked at) and the asker is told so; a file that is missing, malformed or not acceptable in any part is refused as a whole (the log level excepted), the asker is told so, and the daemon runs on with the configuration in force and takes later reloads. Reloads leave no asker waiting and do not keep the daemon from ending.',
 over=['inputs','histories','schedules'], quant='2 reloads in a row (thorough: 3), each asked for in any of 3 ways with any of 12 kinds of file with any policy and rate exception, all combinations for one reload; reloads asked for while another is under way or while the daemon ends, with one delay (thorough: 2) at any synchronisation point',
 tests='No test reloads a configuration.',
 files=['command/daemon.go',ING,'server/admin/http/handler.go','config/config.go','internal/registry/policy/policy.go'], mech=[('daemonCommand, reloadConfig, reloadPeering, setLoggingConfig','command/daemon.go'),('adminHandler.reloadConfig','server/admin/http/handler.go')], observe=['peers allowed to sync','rate limiter in force','peering services','HTTP status of the reload request','return of DaemonCmd'],
 note='The real DaemonCmd.Action runs against stand-ins for its surroundings; counterexamples are replayed with the real daemon in a scratch directory. '+ENV),
dict(id='C20', title='The daemon serves what its configuration says and comes back as it was',
 statement='Every setting in the configuration file is used as it stands and one that is left out has its documented value; saving or upgrading a configuration changes neither, and an upgrade keeps the file it replaces. The finder, ingest, admin and libp2p servers are served exactly if configuration and command line have them on, HTTP and libp2p from one index and one registry; a request that needs what is off, or what is not configured, is refused and harms nothing. Told to end, the daemon ends without error, serves nothing any more and has closed its value store, and one started again on the same data knows the providers and content that it knew.',
 over=['inputs','configurations','histories'], quant='all combinations of 4 servers that are on, off in the configuration or off by switch, two runs of the daemon with requests to each server over each transport; configuration files with none, all or any one of 33 settings, with any number, and 3 policies in files of 3 versions, saved or upgraded',
 tests='No test starts the daemon; one test of the configuration saves and loads the default.',
 files=['command/daemon.go','config/config.go','config','server/finder/http/server.go','server/ingest/http/server.go','server/admin/http/server.go','server/finder/libp2p/server.go','server/ingest/libp2p/server.go'], mech=[('daemonCommand','command/daemon.go'),('Load, Save, UpgradeConfig, populateUnset','config/config.go')], observe=['answers of the finder, ingest and admin clients','return of DaemonCmd','value store open or closed','fields of the loaded configuration'],
 note='The real DaemonCmd.Action and the real clients run against stand-ins for the surroundings; counterexamples are replayed with the real daemon in a scratch directory. '+ENV),
]
PROPS.sort(key=lambda p: p['id'])

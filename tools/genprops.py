#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be edited readably."""
import json, os
LIM="goroutines/limited/goroutines.go"; POOL="goroutines/pooled/goroutines.go"; REG="goroutines/internal/register/register.go"
GOR="goroutines/goroutines.go"; IPOOL="goroutines/internal/pool/pool.go"
WAIT="prim/wait/wait.go"; SL="prim/slices/slice.go"; SLO="prim/slices/options.go"; CH="prim/chans/chans.go"; CHO="prim/chans/options.go"
AT="prim/atomics/atomics.go"; SP="pipelines/stagedpipe/stagedpipe.go"; ST="pipelines/stagedpipe/stats.go"; Q="pipelines/stagedpipe/internal/queue/queue.go"
CLI="pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

S,I,H,PR,CF="schedules","inputs","histories","programs","configurations"

# ------------------------------------------------------------------ goroutine pools
p("C01","A limited pool never runs more blocking jobs than its size",
 "A limited pool created with size N never has more than N jobs that were submitted without the NonBlocking option executing at the same moment: such a submission takes one of N places before its job starts, and the place is not given back before the job has returned. Jobs submitted with NonBlocking neither take nor give back a place.",
 [S,I,CF],"every number of concurrent submitters, every size, every mix of options and every schedule",
 "TestPool only checks that 1000 jobs ran; it never looks at how many ran together, and an overrun shows only under some schedules.",
 [LIM],[("slot channel taken in Submit, released by the job's goroutine",LIM+":Submit")],
 [("Pool.queue","counting semaphore, capacity = size",LIM+":Pool")],["number of jobs between entry and return"])
p("C02","A limited pool never loses a place",
 "In a limited pool every place taken by a submission is given back exactly once, when that submission's job has returned. So a pool of size N with no running jobs accepts N jobs without blocking, after any history of submissions, and a blocked Submit proceeds as soon as a running job returns.",
 [S,H],"every history of accepted and rejected, blocking and NonBlocking submissions",
 "The test submits only well-formed blocking jobs, and a lost or doubly returned place only shows after a history that exercises the leaking path.",
 [LIM],[("slot released on every path of the job's goroutine",LIM+":Submit")],
 [("Pool.queue","places in use",LIM+":Pool")],["Submit blocking or not after a history"])
p("C03","A pooled pool runs jobs only on its N workers, one at a time each",
 "A pooled pool created with size N starts exactly N workers, each of which runs the jobs handed to it one after the other until the pool is closed. A job runs outside those workers only if it was submitted with NonBlocking and no idle worker took it at once.",
 [S,I,CF],"every size, load, option mix and schedule",
 "TestPool checks that all jobs ran, not where; the number of workers and the overflow rule are never observed.",
 [POOL],[("worker loop",POOL+":runner"),("New starts workers",POOL+":New"),("Submit hands over",POOL+":Submit")],
 [("Pool.queue","hand-over channel to the workers",POOL+":Pool")],["number of goroutines running jobs"])
p("C04","Every accepted job runs exactly once, a rejected one never",
 "For both pool types: when Submit returns nil, the submitted job is called exactly once, with the Context passed to Submit; when Submit returns an error, the job is never called.",
 [S,I,H],"every job, option list, load and schedule, up to Close",
 "Tests submit 1000 well-behaved jobs on one path; loss or duplication on the overflow, blocked, option-error or shutdown path is not sampled.",
 [LIM,POOL],[("Submit",LIM+":Submit"),("Submit",POOL+":Submit"),("runner",POOL+":runner")],None,["job call count"])
p("C05","A rejected Submit reports an error and leaves no trace",
 "For both pool types Submit returns a non-nil error when the job is nil or when any of its options fails, which an option made for the other pool type does. A rejected submission leaves the pool as it was: it occupies no place or worker, is not counted as running, and delays neither Wait nor Close.",
 [I,H],"every combination and order of options, every history of rejected and accepted submissions",
 "No test submits a nil job or a failing option; the residue would show only later, as a hang in Wait or a smaller pool.",
 [LIM,POOL,IPOOL],[("option loop before any accounting",LIM+":Submit"),("option loop before any accounting",POOL+":Submit"),("option constructors check the pool type",LIM+":NonBlocking"),("option constructors check the pool type",POOL+":NonBlocking")],None,["error of Submit","later Wait, Running, Submit"])
p("C06","Wait and Close are barriers for all accepted jobs",
 "On both pool types Wait and Close return only after every job whose Submit has returned nil has itself returned, including NonBlocking ones; and once all those jobs have returned, Wait and Close do return.",
 [S,H],"every schedule of submitters, jobs and waiters; every mix of options",
 "The tests call Wait once after submitting from one goroutine; a job registered after it was made visible, or released before it ended, escapes only under rare schedules.",
 [LIM,POOL],[("WaitGroup Add before dispatch, Done after the job",LIM+":Submit"),("same",POOL+":Submit"),("Done after the job",POOL+":runner"),("Wait in Wait and Close",POOL+":Close")],
 [("Pool.wg","accepted jobs that have not returned",LIM+":Pool")],["return of Wait and Close"])
p("C07","Running counts each accepted job once and only while it is in flight",
 "On both pool types an accepted job is counted by Running exactly once, from before the job is called until after it returned, and is no longer counted when Wait returns. Rejected submissions are never counted, so an idle pool reports 0.",
 [S,H],"every history and schedule, all option mixes",
 "No test reads Running of a pool after a history; drift accumulates by one per mishandled path.",
 [LIM,POOL],[("atomic counter",LIM+":Submit"),("atomic counter",POOL+":Submit"),("atomic counter",POOL+":runner")],
 [("Pool.running","jobs in flight",POOL+":Pool")],["Running()"])
p("C08","NonBlocking submissions never wait",
 "On both pool types a Submit with the NonBlocking option returns without waiting for a place, a worker or another job, and the job it submits starts without any other job having to end first.",
 [S,H],"every load: all places or workers may be occupied for ever",
 "TestNonBlocking uses an empty, zero-value pool; a fully loaded pool whose jobs depend on the new one is never built.",
 [LIM,POOL],[("no slot taken",LIM+":Submit"),("non-blocking hand-over to an idle worker or own goroutine",POOL+":Submit"),("hand-over channel is unbuffered",POOL+":New")],None,["Submit returning, job starting"])
p("C09","Len is the configured size",
 "On both pool types Len returns the size the pool was created with, at any moment and under any load.",
 [S,H,CF],"every size, every load, before and after Close",
 "No test calls Len.",
 [LIM,POOL,GOR],[("Len",LIM+":Len"),("Len",POOL+":Len")],None,["Len()"])
p("C10","Close releases everything a pool owns",
 "Close on either pool type, once the accepted jobs have returned, makes every goroutine the pool started end and removes the pool from the registry, so that its name can be used again. It does none of this before the accepted jobs have returned.",
 [S,H],"every history before Close, every schedule",
 "The tests never Close a pool, nor look at goroutines or names afterwards.",
 [LIM,POOL,REG],[("Close",LIM+":Close"),("Close",POOL+":Close"),("worker loop ends when the channel is closed",POOL+":runner"),("Unregister",REG+":Unregister")],None,["goroutine count","New with the same name"])
p("C11","Pool names are unique and creating a pool always terminates",
 "Any number of pools may be created with the same base name: every constructor call returns, and each live pool created with a non-empty base name has a name held by no other live pool, which is the base name or the base name, a hyphen and a number. A pool created with the empty name is not registered and always keeps the empty name.",
 [I,H,S],"every number and order of creations and closings, from any number of goroutines",
 "The tests create one pool per name; the third pool with one name is never created and concurrent creation is not tried.",
 [LIM,POOL,REG],[("registration loop",LIM+":New"),("registration loop",POOL+":New"),("Register check-and-insert",REG+":Register"),("NewName",REG+":NewName")],
 [("registry","live pools by name",REG)],["New returning","GetName()"])
p("C12","The pool registry is race-free and its enumeration ends",
 "All accesses to the registry of pools are mutually exclusive with its changes. An enumeration of the registered pools delivers each of them once and then ends, and creating or closing pools never has to wait for the consumer of an enumeration.",
 [S,H],"every interleaving of creating, closing and enumerating, including an abandoned or slow enumeration",
 "No test enumerates the registry or creates pools concurrently.",
 [REG],[("RWMutex around the map",REG+":Register"),("Unregister",REG+":Unregister"),("Pools",REG+":Pools")],
 [("registry, mu","live pools and their lock",REG)],["Pools()"])
p("C13","Pool constructors reject invalid arguments without side effects",
 "Both pool constructors return a nil pool and a non-nil error for every size below 1 and for every name containing a digit, a hyphen or white space, without starting a goroutine or registering a name; for every other argument they return a usable, registered pool and a nil error.",
 [I],"all sizes and names",
 "Only valid arguments are used in tests.",
 [LIM,POOL,REG],[("validation before construction",LIM+":New"),("validation before construction",POOL+":New"),("ValidateBaseName",REG+":ValidateBaseName")],None,["New"])
p("C14","Errors collects every error, safely for concurrent use",
 "The Errors collector may be used by any number of goroutines at once without a data race: every recorded error is returned by a later Errors call, in recording order, and Error returns the first one or nil. A slice returned by Errors is the caller's own: later recordings and the caller's changes do not affect each other.",
 [S,H],"every interleaving of Record, Error and Errors",
 "No test uses Errors at all.",
 [GOR],[("mutex in Record, Error, Errors",GOR+":Errors")],[("Errors.errors","recorded errors, guarded by mu",GOR+":Errors")],["Error(), Errors()"])

# ------------------------------------------------------------------ wait
p("C15","wait.Group.Wait is a barrier for every started function",
 "Group.Wait returns only after every function passed to Group.Go before it has finished, with or without a Pool, and whether the function succeeded, failed, was skipped or its submission to the Pool was refused; once they all have, Wait does return.",
 [S,I,CF],"every schedule, every pool, every outcome of the functions and of the pool's Submit",
 "Tests cover the success path and one error; the refused-submission and skipped paths, and an Add made too late, are not sampled.",
 [WAIT],[("wg.Add before dispatch, wg.Done deferred",WAIT+":Go"),("wg.Wait",WAIT+":Wait")],[("Group.wg","functions not finished",WAIT+":Group")],["return of Wait"])
p("C16","Each function given to a Group runs exactly once unless cancelled first",
 "A function passed to Group.Go is called exactly once, with a Context derived from the one passed to Go, unless that Context was already cancelled when its turn came or the Pool refused it; in those cases it is not called and Wait returns a non-nil error.",
 [S,I,CF],"every schedule, pool and moment of cancellation",
 "Tests cancel only after all functions have started.",
 [WAIT],[("Context check before the call",WAIT+":Go"),("error recording",WAIT+":applyErr")],None,["call count","Wait's error"])
p("C17","Group.Wait loses no error",
 "Group.Wait returns nil if and only if every function was called and returned nil; otherwise the error it returns matches (errors.Is) every error the functions returned, however many fail concurrently. Only a context.Canceled or context.DeadlineExceeded error that is not the first recorded one may be left out.",
 [S,I,H],"every number, order and concurrency of failing functions",
 "The tests use one failing function; losing the first of two errors, or one of two concurrent ones, is not visible with it.",
 [WAIT],[("compare-and-swap accumulation",WAIT+":applyErr"),("returned by Wait",WAIT+":Wait")],[("Group.errors","accumulated error",WAIT+":Group")],["error of Wait"])
p("C18","A failing function triggers CancelOnErr",
 "When a function run by a Group with CancelOnErr set returns a non-nil error, CancelOnErr is called, after the error has been recorded and before Wait returns, with or without a Pool. CancelOnErr is not called because of a function that returned nil while others are still running; Wait calls it once all functions have finished, and then forgets it.",
 [S,I,CF],"every schedule, with and without pool",
 "TestWaitGroupCancelOnErr covers the no-pool path with one failing function.",
 [WAIT],[("call after applyErr",WAIT+":Go"),("call in Wait",WAIT+":Wait")],None,["cancellation of the Context"])
p("C19","A Group is clean and reusable after Wait",
 "When Wait returns, Running reports 0 and keeps doing so until the next Go, nothing started earlier touches the Group any more, and the Group can be used again as if new: no error, count or cancel function of the earlier use has an effect on the next.",
 [S,H],"every schedule of the finishing functions against Wait, any number of reuses",
 "The tests read Running after Wait once per group and do not reuse a Group after an error; a late decrement is a matter of schedule.",
 [WAIT],[("reset",WAIT+":reset"),("order of the deferred calls",WAIT+":Go")],[("Group.count, total, errors, CancelOnErr, start, otelOnce","per-use state",WAIT+":Group")],["Running(), next Wait"])

# ------------------------------------------------------------------ slices / chans
p("C20","slices.Access visits each element exactly once",
 "If the Context is not cancelled and no option asks to stop, slices.Access calls the accessor exactly once for each index from 0 to len-1, with that index, the element stored there, and a Modifier that writes its argument to that index of the caller's slice and to nothing else. No index is ever visited twice.",
 [I,S],"every slice and length, every schedule of the accessors",
 "Tests use five elements; index capture or boundary errors for other lengths or schedules do not show.",
 [SL],[("index loop and closure",SL+":Access"),("modifier",SL+":modifier")],None,["accessor arguments, slice contents"])
p("C21","No accessor runs after slices.Access or chans.Access returned",
 "When slices.Access or chans.Access returns, for whatever reason, every accessor call it started has returned and none will start; a goroutine pool it created itself has been closed, and a pool supplied by the caller is left open.",
 [S,I,H],"every schedule and moment of cancellation, with own and supplied pool",
 "Tests never cancel, stop or supply a pool; an accessor outliving the call shows only as a later race.",
 [SL,CH],[("wait before every return after the first Go",SL+":Access"),("same",CH+":Access"),("deferred Close of the own pool only",CH+":Access")],None,["accessor calls after return"])
p("C22","Access reports accessor errors and early cancellation",
 "slices.Access and chans.Access return a non-nil error if any accessor call returned a non-nil error, and that error matches it (errors.Is) even when WithStopOnErr made the call stop early (a context error that follows another recorded error excepted); they also return a non-nil error whenever the Context was cancelled before all elements had been handed to the accessor. Without an accessor error, an option error or a cancellation they return nil.",
 [S,I],"every schedule of failing accessors, every moment of cancellation, with and without WithStopOnErr",
 "One error case exists for slices, none for chans, none with cancellation or WithStopOnErr.",
 [SL,CH],[("error of the Group",SL+":Access"),("error of the Group",CH+":Access")],None,["returned error"])
p("C23","Options of slices and chans are accepted and take effect",
 "Every option constructor of the slices and chans packages yields an option that its package's functions accept without error: WithPoolOptions makes the given pool and submit options the ones used for all calls, WithStopOnErr makes the first accessor error cancel the Context of the remaining calls, and without WithStopOnErr an accessor error cancels nothing.",
 [I,CF],"every option and combination of options",
 "No test passes an option to either package.",
 [SL,SLO,CH,CHO],[("option application",SL+":Access"),("option application",CH+":Access"),("constructors",SLO),("constructors",CHO)],None,["pool used, Context cancelled"])
p("C24","chans.Access handles each received value exactly once and stops on cancel",
 "chans.Access calls the accessor exactly once for each value it takes from the input, with that value, until the input is closed or the Context is cancelled; when the Context is cancelled it stops taking values and returns even if no further value ever arrives and the input is never closed.",
 [S,I,H],"every input sequence and schedule, every moment of cancellation including while the input is idle",
 "The chans package has no tests.",
 [CH],[("receive loop",CH+":Access")],None,["accessor calls, return of Access"])
p("C25","chans.Modify emits one result per value and closes its output once, last",
 "chans.Modify sends, for each value it passes to the modifier, exactly one result carrying the modifier's value or its error, unless the Context is cancelled first; and whenever it was given non-nil channels it closes the output exactly once, after the last send, on every return. It never stays blocked on the output once the Context is cancelled, and an error of the modifier also makes Modify return a non-nil error.",
 [S,I,H],"every input, failing or slow consumer, moment of cancellation, pool",
 "The chans package has no tests.",
 [CH],[("deferred close",CH+":Modify"),("send closure",CH+":Modify")],None,["output channel"])

# ------------------------------------------------------------------ atomics
p("C26","RWValue updates are serialised and atomic",
 "LoadReplace calls its function exactly once, with the value then stored (the zero value if none), and no other Store or LoadReplace takes effect between that call and the storing of its result. If the function returns an error, LoadReplace returns that error and the value is unchanged; otherwise exactly the returned value is stored, and the lock is released on every return.",
 [S,I,H],"every interleaving of Load, Store and LoadReplace, including on a value that was never stored",
 "TestRWValue always stores first and its replacer returns its argument.",
 [AT],[("mutex held across read, call and store",AT+":LoadReplace"),("same mutex",AT+":Store")],[("RWValue.mu, RWValue.v","writer lock and published value",AT+":RWValue")],["Load after LoadReplace"])
p("C27","RWValue.Load never blocks and never sees a partial value",
 "RWValue.Load returns without taking any lock, whatever writers are doing, and returns either the zero value, if nothing was stored, or one complete value passed to Store or returned by a successful LoadReplace function. A published value is never modified in place.",
 [S,H],"every interleaving with writers, including a LoadReplace function that never returns",
 "The test cannot distinguish a reader that waits from one that does not.",
 [AT],[("atomic pointer",AT+":Load"),("stores publish a fresh copy",AT+":Store")],[("RWValue.v","pointer to the published value",AT+":RWValue")],["Load()"])

# ------------------------------------------------------------------ stagedpipe
p("C28","Every accepted request comes out exactly once, on its own group",
 "When RequestGroup.Submit returns nil, exactly one Request for that submission is delivered on the Out channel of the same RequestGroup, carrying the result of the last stage run, and never on another group's, whatever other groups use the Pipelines and whether or not DelayWarning or Ordered is set (stages return the Request they were given, with its exported fields changed as they wish).",
 [S,I,H,CF],"every number of groups, requests, pipelines and option settings; every schedule",
 "Tests use one group at a time and no DelayWarning; loss, duplication or misrouting on other paths is not sampled.",
 [SP],[("group number set in Submit",SP+":Submit"),("runner forwards",SP+":runner"),("demux by group number",SP+":New"),("group forwarder",SP+":NewRequestGroup")],
 [("Request.groupNum","routing key",SP+":Request")],["Out()"])
p("C29","A Submit that fails leaves the group and pipelines unaffected",
 "When RequestGroup.Submit returns an error, because the Context is nil or was cancelled before the request was taken, the request never comes out, and it affects nothing later: both Close calls still complete, and an ordered group still delivers every accepted request. A Submit that waits for the Pipelines returns the Context's error once its Context is cancelled.",
 [S,I,H],"every moment of cancellation, any mix of failing and accepted submissions",
 "The tests ignore Submit errors and never cancel while the pipeline is full.",
 [SP],[("accounting undone on the cancel branch",SP+":Submit")],[("RequestGroup.wg, Pipelines.wg, itemNum","requests in flight, next ordinal",SP)],["Close(), Out()"])
p("C30","Ordered groups deliver in submission order without gaps",
 "With the Ordered option, the requests accepted by a RequestGroup come out of Out in the order in which their Submit calls were accepted, each exactly once, and none is withheld once all earlier ones have been processed, even if some submissions fail and even if several goroutines submit.",
 [S,H],"every processing order of the pipelines, every mix of failing and accepted submissions",
 "TestOrdered submits from one goroutine and never has a failing Submit.",
 [SP],[("ordinal assigned in Submit",SP+":Submit"),("InOrder keyed by the ordinal",SP+":NewRequestGroup")],[("RequestGroup.itemNum","next ordinal",SP+":RequestGroup")],["Out()"])
p("C31","RequestGroup.Close waits for its requests and then ends Out",
 "RequestGroup.Close returns only after every accepted request of that group has left the pipelines, and it makes the group's Out channel close exactly once, after the last request was delivered on it; it does not wait for requests of other groups.",
 [S,H],"every schedule of submitters, stages and consumers, any number of groups",
 "Tests close one group at a time after a full run.",
 [SP],[("group WaitGroup",SP+":Close"),("RemoveReceiver closes the group's input",SP+":Close"),("forwarder closes the user channel",SP+":NewRequestGroup")],None,["Close(), Out() closing"])
p("C32","Pipelines.Close stops the state machine once everything is processed",
 "After Pipelines.Close, once all accepted requests have been delivered to their groups, the StateMachine's Close method is called exactly once, every stage-running goroutine of the Pipelines ends and its output side is shut down; StateMachine.Close is never called while an accepted request is still unprocessed, and Close itself does not wait.",
 [S,H],"every history of accepted and rejected requests, any number of groups, every schedule",
 "The tests' StateMachine.Close methods are empty, so whether and when they are called is not observed.",
 [SP],[("Pipelines WaitGroup Add in Submit, Done when the request left",SP+":NewRequestGroup"),("Close",SP+":Close")],[("Pipelines.wg","accepted requests not yet delivered",SP+":Pipelines")],["StateMachine.Close call","goroutines"])
p("C33","A request is driven through the state machine as its stages direct",
 "Each request starts at the StateMachine's Start stage; after a stage, the stage it put in Next runs next with the Request that stage returned, and the request leaves as soon as a stage returns it with Err set or without a Next. A Next left over from an earlier stage or from the submitter is never followed, and no stage runs after Err was set.",
 [I,H,PR],"every state machine and every data-dependent routing, including loops",
 "Tests use four fixed state machines.",
 [SP],[("stage loop",SP+":processReq"),("execStage",SP+":execStage"),("resetNext",SP+":resetNext")],None,["sequence of stage calls"])
p("C34","Pre-processors run in order before every stage",
 "Before every stage of a request, every pre-processor given by the PreProcessors options is called exactly once, in the order given, each with the Request the previous one returned, and the stage gets the last one's result; when a pre-processor sets Err, no further pre-processor and no stage is called for that request and it leaves with that Err.",
 [I,CF,PR],"any number of pre-processors and options, any stage sequence",
 "No test uses PreProcessors.",
 [SP],[("pre-processor loop",SP+":execStage"),("PreProcessors option appends",SP+":PreProcessors")],None,["sequence of calls"])
p("C35","With DAG no stage runs twice for one request",
 "With the DAG option, a request about to enter a stage it has already entered leaves instead with an error for which IsErrCyclic is true, and a request that repeats no stage never gets such an error; without the option no request gets one. What a request has visited is never influenced by another request, even one handled earlier or concurrently by the same or other Pipelines.",
 [S,I,H],"every routing, every reuse of internal tracking objects, resubmission of delivered requests",
 "TestDAG uses four requests and one two-stage loop, and does not resubmit or chain pipelines.",
 [SP],[("seenStages",SP+":seen"),("check in execStage",SP+":execStage"),("pooled tracking objects",SP+":processReq"),("DAG option",SP+":DAG")],[("Request.seenStages, seenStagesPool","stages visited",SP)],["Err of the output"])
p("C36","A cancelled request runs no further stage",
 "When a request's Context is already cancelled as a stage is about to be entered, neither that stage nor its pre-processors are called: it leaves with Err set to the Context's error, and it is still delivered to its group.",
 [S,I],"every moment of cancellation",
 "Tests cancel only after an error was delivered and do not count stage calls.",
 [SP],[("check at each stage",SP+":execStage")],None,["stage calls after cancellation"])
p("C37","Pipeline statistics count each request once and extremes exactly",
 "Stats counts each processed request as running exactly once from before its first stage until it has finished, and then as completed exactly once, so Running is 0 when nothing is in process. A request's duration runs from before its first stage to after its last, its ingest duration from its Submit to before its first stage. Min and Max, also those of IngestStats, are the smallest and largest duration recorded since creation (0 before any), however many requests finish concurrently.",
 [S,H],"every interleaving of recordings, all durations",
 "No test reads Stats.",
 [SP,ST],[("setMin, setMax CAS loops",ST),("running counter",SP+":processReq"),("calcExitStats",SP+":calcExitStats")],[("stats","counters",ST)],["Stats()"])
p("C38","New rejects invalid input and runs num times stages workers",
 "stagedpipe.New returns a nil Pipelines and a non-nil error when num is below 1, the StateMachine is nil or an option fails, leaving no goroutine behind. Otherwise it starts exactly num times S workers, S being the number of public Stage methods of the StateMachine plus those of the CountSubStages objects, all applying every option given, in any option order.",
 [I,CF],"every num, state machine and option list",
 "Tests use valid arguments and do not count workers.",
 [SP],[("validation",SP+":New"),("newPipeline starts runners",SP+":newPipeline"),("numStages",SP+":numStages")],None,["New, concurrent stage calls"])
p("C39","Request groups can be opened and closed concurrently",
 "RequestGroups of one Pipelines may be created and closed concurrently with each other and with processing: every group has its own identity, is registered for output before its creation returns, and its registration is never lost because another group is created or closed at the same time.",
 [S,H],"every interleaving of NewRequestGroup, RequestGroup.Close and processing",
 "Tests create and close groups sequentially.",
 [SP],[("AddReceiver, RemoveReceiver",SP+":NewRequestGroup"),("demux options",SP+":New"),("group numbers",SP+":NewRequestGroup")],[("Pipelines.demux, requestGroupNum","receivers by group",SP+":Pipelines")],["Out(), process exit"])
p("C40","Every span the library starts is ended exactly once",
 "Each OpenTelemetry span that a Group, RequestGroup, Request or stage starts is ended exactly once when that operation finishes, on every path including errors, cancellation and rejection, and no span is used for recording after its end. A request whose span is recording leaves a stage with that span in its Context, as before, even if the stage replaced the Context, so spans of later stages are siblings, not descendants, of earlier ones.",
 [I,H,CF],"every path, with recording enabled or not",
 "No test runs with a recording span.",
 [SP,WAIT],[("span.New and End",SP),("span.New and End",WAIT)],None,["exported spans"])

# ------------------------------------------------------------------ queue, CLI
p("C41","The internal queue loses and duplicates nothing up to Close",
 "Every value pushed on the internal queue before Close is returned by exactly one Pop, even with many producers and consumers, and Pop reports not-ok only when the queue was closed and every value pushed before Close has been taken.",
 [S,H],"every interleaving of Push, Pop and Close",
 "The queue package has no tests.",
 [Q],[("compare-and-swap on head and next",Q+":simple"),("closed flag read before the last look",Q+":Pop")],[("simple.head, tail, closed","linked list and end flag",Q)],["Pop()"])
p("C42","A bounded queue holds at most its limit and never jams",
 "A queue created with a positive size never holds more than that many values: Push takes a place before it links its value and each successful Pop gives back exactly one after unlinking, so Push blocks exactly while the queue is full; a queue created with a size of 0 or less never makes Push block.",
 [S,H,CF],"every size and interleaving",
 "The queue package has no tests.",
 [Q],[("limit channel",Q+":Push"),("release in Pop",Q+":Pop"),("New",Q+":New")],[("Queue.limit","places in use",Q+":Queue")],["Push blocking"])
p("C43","The generated pipeline skeleton compiles",
 "For every package path whose last element is a Go identifier not otherwise used in the generated program, the files stagedpipe-cli init writes are distinct, are named so that the go tool builds them on every platform, and form Go packages that type-check against this module: the package in the directory named after that element, and main.go, when asked for, in the parent. Any failure to create or write a file is reported as an error.",
 [I],"every such package path, with and without main.go, every failing file operation",
 "The CLI has no tests.",
 [CLI,"pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl","pipelines/stagedpipe/tools/stagedpipe-cli/cmd/data.tmpl","pipelines/stagedpipe/tools/stagedpipe-cli/cmd/pipeline.tmpl"],[("templates and file writes",CLI+":initCmd")],None,["generated files"])
# ------------------------------------------------------------------ stated, not claimed
p("C45","The internal queue is FIFO and linearizable",
 "Values pushed by one goroutine are popped in the order pushed, and the history of Push and Pop calls of any number of goroutines is linearizable to a first-in first-out queue.",
 [S,H],"every interleaving",
 "The queue package has no tests, and an order violation needs a particular interleaving.",
 [Q],[("simple",Q+":simple")],None,["Pop order"])
p("C44","Average statistics equal the mean of the recorded durations",
 "Whenever no request is in process, Stats.Avg is the total duration of the completed requests divided by their number (0 before any), and IngestStats.Avg the same for their ingest durations: each completed request adds its duration exactly once, atomically, and nothing else changes the totals.",
 [S,H],"every history of completed requests and every interleaving of recordings",
 "No test reads Stats.",
 [ST],[("toStats",ST+":toStats")],None,["Stats()"])
p("C46","Concurrent calls neither race for data nor deadlock on the library's locks",
 "The exported functions and methods of the module may be called from any number of goroutines at once (Group.Wait and the Close methods by the owner, when no other call on that object is running): no two goroutines, the library's own included, access one of the library's variables at the same time unless both read it or both use atomic operations or locks. No lock is still held when a call or goroutine ends, taken again while held, or taken in an order opposite to another call's.",
 [S],"every interleaving of every set of allowed calls",
 "The race detector only sees the schedules a test happens to produce; the stable tests run few calls at once and without it.",
 [LIM,POOL,REG,GOR,WAIT,SL,CH,AT,SP,ST,Q],[("limited.Submit",LIM+":Submit"),("Group.Go",WAIT+":Go"),("RequestGroup.Submit",SP+":Submit")],None,["memory accesses"])
p("C47","Group.Running counts each function exactly while it is in flight",
 "wait.Group.Running counts every function given to Go once: from before it is handed to its goroutine or the Pool until it has returned or was left out because its Context was cancelled; one that the Pool refused is not counted any more when Go returns. No path counts a function twice, stops counting it early or never, or makes the number negative.",
 [S,CF],"every function, Context, Pool and option list, every interleaving with Go, Wait and Running",
 "The tests never call Running while functions run, and a count lost on one path (error, cancellation, refusal) shows only in that moment.",
 [WAIT],[("count",WAIT+":Go"),("Running",WAIT+":Running")],[("Group.count","functions in flight",WAIT+":Group")],["Running()"])
p("C48","A Group with a Pool runs every function on that Pool with its options",
 "If wait.Group.Pool is set, every function given to Go is submitted to exactly that Pool, with all PoolOptions and nothing runs it elsewhere; if it is nil, every function gets a goroutine of its own. Go never runs a function on the caller's goroutine, and the Group changes neither Pool nor PoolOptions.",
 [S,I,CF],"every Pool, option list, number of functions and load",
 "Where a function runs is invisible to the tests: they look only at results.",
 [WAIT],[("hand-over",WAIT+":Go")],[("Group.Pool, PoolOptions","where functions run",WAIT+":Group")],["Pool.Submit calls"])
p("N03","Waiting submitters are eventually served",
 "On a pool whose jobs all end, every blocked Submit eventually proceeds; no submitter is overtaken for ever.",
 [S],"every fair schedule",
 "Starvation needs an unbounded adversarial schedule.",
 [LIM,POOL],[("channel queueing",LIM+":Submit")],None,["Submit returning"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))

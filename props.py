"""What decides each property: the models, the behaviours generated from them, the histories
recorded from the real code, and the specification these are checked against."""
import json, os
TITLES = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')):
    _p = json.loads(_l)
    TITLES[_p['id']] = _p['title']

SIM = lambda n, d: ['-simulate', f'num={n}', '-depth', str(d), '-seed', '$SEED']
SINK = ('MCSink', 'MCSink.cfg', 'MCSinkThorough.cfg')
IMPL = ('MCSinkImpl', 'MCSinkImpl.cfg')
IMPL_EV = ('MCSinkImpl', 'MCSinkImplEv.cfg')
# Apalache, for sizes and values of any kind: the first step, and any step from a state of the invariant
SINK_ALL = [('SinkAll', ['--init=Init', '--length=0', '--inv=Inv']), ('SinkAll', ['--init=Inv', '--length=1', '--inv=Inv'])]
RAW_ALL = [('RawEventAll', ['--length=1', '--inv=Exact'])]
FAR = ('MCFar', 'MCFar.cfg')
SEQ = [dict(module='SinkGen', cfg='SinkGenSeq.cfg'),
       dict(module='SinkGen', cfg='SinkGenSeq3.cfg', thorough=True, limit_thorough=6000)]


def ANALYSIS(mode, rule):
    return dict(
        models=[('MCAnalysis', 'AnalysisTimes.cfg', 'AnalysisTimesThorough.cfg'),
                ('MCAnalysis', 'AnalysisKinds.cfg', 'AnalysisKindsThorough.cfg'),
                ('MCLarge', 'MCLarge.cfg')],
        runs=[dict(area='analysis', mode=mode, trace='AnalysisTrace', gen=[
            dict(module='MCAnalysis', cfg='AnalysisGenTimes.cfg', limit=4000),
            dict(module='MCAnalysis', cfg='AnalysisGenKinds.cfg'),
            dict(module='MCAnalysis', cfg='AnalysisGenDeep.cfg', args=SIM(400, 80), limit=400, limit_thorough=3000)]),
              dict(area='large', mode=mode, trace='LargeTrace')],
        rule=rule)


def TIMES(limit, thorough):
    return dict(module='MCAnalysis', cfg='AnalysisGenTimes.cfg', limit=limit, limit_thorough=thorough)


def TOOL(mode, models, gen, rule):
    runs = [dict(area='tools', mode=mode, trace='ToolsTrace', gen=gen)]
    if mode in ('summary', 'chrome', 'view', 'stacks', 'diff', 'aggregate', 'lanes'):
        runs.append(dict(area='tools', mode='large-' + mode, trace='LargeTrace'))
        models = models + [('MCLarge', 'MCLarge.cfg')]
    return dict(tools=True, models=models, runs=runs, rule=rule)


PROPS = {
    'C01': dict(
        models=[SINK, FAR], proofs=SINK_ALL,
        runs=[dict(area='sink', mode='seq', trace='SinkTrace', gen=SEQ),
              dict(area='far', mode='sink', trace='FarTrace')],
        rule='all pairs of calls over the size classes of the page model, and seeded random sequences of sizes around '
             'the page limits, on file and memory storage; a history is distinct by its calls, addresses and contents'),
    'C02': dict(
        models=[SINK, IMPL],
        runs=[dict(area='sink', mode='conc', trace='SinkTrace',
                   gen=[dict(module='SinkGen', cfg='SinkGenConc.cfg', args=SIM(300, 200))])],
        rule='interleavings: schedules of the page model, all schedules of small programs up to a preemption bound, '
             'random schedules and free running threads; distinct by the recorded history'),
    'C03': dict(
        models=[IMPL, IMPL_EV],
        runs=[dict(area='sink', mode='conc', trace='SinkTrace',
                   gen=[dict(module='SinkGen', cfg='SinkGenConc.cfg', args=SIM(300, 200))])],
        rule='as C02; a history in which some call never returns ends in a step no specification has'),
    'C04': dict(
        models=[SINK, IMPL_EV], proofs=SINK_ALL,
        runs=[dict(area='sink', mode='crash', trace='SinkTrace',
                   gen=[dict(module='SinkGen', cfg='SinkGenCrash.cfg', args=SIM(120, 400))])],
        rule='the file is read back before every write to it, with up to four cuts inside that write, and after every call'),
    'C05': dict(
        models=[SINK],
        runs=[dict(area='sink', mode='fault', trace='SinkTrace',
                   gen=[dict(module='SinkGen', cfg='SinkGenSeq.cfg', limit=25, limit_thorough=300)])],
        rule='for each program, a run without fault, then one run per file write and kind of fault (short by several '
             'amounts, interrupted, no space), and runs with repeated faults'),
    'C06': dict(
        models=[SINK, ('RecorderImpl', 'MCRecorderImpl.cfg', 'MCRecorderImplThorough.cfg')],
        runs=[dict(area='sink', mode='panic', trace='SinkTrace', gen=[dict(module='SinkGen', cfg='SinkGenSeq.cfg', limit=100)]),
              dict(area='recorder', mode='reject', trace='RecorderTrace', gen=[
                  dict(module='RecorderImpl', cfg='RecorderGen.cfg', limit=1500, limit_thorough=6000),
                  dict(module='RecorderImpl', cfg='RecorderGenDeep.cfg', args=SIM(300, 80), limit=300, limit_thorough=3000)])],
        rule='seeded sequences in which some serializers panic after writing part of their bytes; histories of the whole '
             'profiler in which strings, mappings and events are refused or fail in the caller\'s own code'),
    'S01': dict(
        models=[('StringImpl', 'MCStringImpl.cfg', 'MCStringImplThorough.cfg'), FAR],
        runs=[dict(area='strings', mode='table', trace='StringsTrace', gen=[
            dict(module='StringImpl', cfg='StringGen.cfg', limit=3000),
            dict(module='StringImpl', cfg='StringGenDeep.cfg', args=SIM(40, 30), limit=400)]),
              dict(area='far', mode='strings', trace='FarTrace')],
        rule='string tables of the byte model with every class of id digits, strings as long as their own address, '
             'references at addresses with marker bytes, strings beyond the page size, and seeded random tables'),
    'S02': dict(
        models=[('StringImpl', 'MCStringImpl.cfg', 'MCStringImplThorough.cfg')],
        runs=[dict(area='strings', mode='virtual', trace='StringsTrace', gen=[
            dict(module='StringImpl', cfg='StringGen.cfg', limit=2000),
            dict(module='StringImpl', cfg='StringGenDeep.cfg', args=SIM(40, 30), limit=400)])],
        rule='histories of the byte model, bulk mappings of sizes around the limits of the index sink, refused mappings, '
             'and seeded random interleavings of using and mapping ids'),
    'S03': dict(
        models=[('MCEventId', 'MCEventId.cfg', 'MCEventIdThorough.cfg')],
        runs=[dict(area='strings', mode='eventid', trace='StringsTrace', gen=[
            dict(module='MCEventId', cfg='EventIdGen.cfg'),
            dict(module='MCEventId', cfg='EventIdGen5.cfg', thorough=True)])],
        rule='every text of up to four (thorough: five) characters of seven classes, every character up to U+00FF at every '
             'kind of place, and seeded random labels and argument lists'),
    'E01': dict(
        models=[('RawEvent', 'MCRawEvent.cfg', 'MCRawEventThorough.cfg')], proofs=RAW_ALL,
        runs=[dict(area='events', mode='raw', trace='ProfileTrace', gen=[
            dict(module='RawEvent', cfg='RawEventGen.cfg'),
            dict(module='RawEvent', cfg='RawEventGenThorough.cfg', thorough=True, limit_thorough=20000)])],
        rule='every combination of boundary values of the bit-level encoding model, scaled to 48 bits, and seeded random '
             'events; each is constructed, packed, read lightly and fully, and recorded'),
    'E02': dict(
        models=[('MCRecording', 'MCRecording.cfg', 'MCRecordingThorough.cfg'), ('MCRecording', 'MCRecordingLate.cfg')],
        runs=[dict(area='events', mode='record', trace='RecordingTrace', gen=[
            dict(module='MCRecording', cfg='RecordingGen.cfg', limit=1500, limit_thorough=14784),
            dict(module='MCRecording', cfg='RecordingGenDeep.cfg', args=SIM(20, 14), limit=300)])],
        rule='histories of the recording model over one or two threads, seeded random ones of up to six free running '
             'threads, guards handed over between threads, unwound, leaked, and event streams of several pages'),
    'E03': dict(
        models=[('CommandLine', 'CommandLine.cfg', 'CommandLineThorough.cfg')],
        runs=[dict(area='events', mode='describe', trace='ProcessTrace', gen=[dict(module='CommandLine', cfg='CommandLineGen.cfg')])],
        rule='child processes with the argument texts of the command line model, and argument lists over quotes, control characters, blanks and any Unicode, and paths of '
             'every shape over present, absent and obstructed directories and older files'),
    'H01': dict(
        models=[('MCHardware', 'MCHardware.cfg', 'MCHardwareThorough.cfg'), ('PageRead', 'PageRead.cfg')],
        runs=[dict(area='hw', mode='all', trace='HardwareTrace', gen=[
            dict(module='MCHardware', cfg='HardwareGenCpus.cfg', limit=2200, limit_thorough=6000),
            dict(module='MCHardware', cfg='HardwareGen.cfg')])],
        rule='an emulated processor and kernel (perf_event_open interposed, rdpmc and cpuid executed by signal handlers): '
             'every counter on every processor model and with every missing feature, histories of the hardware model, seeded '
             'random ones, and a change of the counter\'s page between any two machine instructions of its set-up'),
    'C07': dict(
        models=[('SharedImpl', 'MCSharedImpl.cfg', 'MCSharedImplThorough.cfg')],
        runs=[dict(area='shared', mode='all', trace='SharedTrace', gen=[
            dict(module='SharedImpl', cfg='SharedGen.cfg', args=SIM(60, 100), limit=480, limit_thorough=4000)])],
        rule='programs and schedules of the sharing model, all schedules of small programs up to a preemption bound, random '
             'programs under random schedules and on free running threads; distinct by the recorded history'),
    'R05': dict(
        models=[('MCQuery', 'MCQuery.cfg')],
        runs=[dict(area='reader', mode='query', trace='QueryTrace', gen=[dict(module='MCQuery', cfg='QueryGen.cfg')])],
        rule='every pair of payloads over four points of time, at boundary values, and seeded random profiles of up to eight '
             'events with twins; every question of every form, every pair, points of time at and next to those of the events'),
    'R06': dict(
        models=[('MCBuilder', 'MCBuilder.cfg', 'MCBuilderThorough.cfg')],
        runs=[dict(area='built', mode='hand', trace='BuilderTrace', gen=[
            dict(module='MCBuilder', cfg='BuilderGen.cfg', limit=1200)])],
        rule='nestings of up to six calls, some refused or failing inside, with values and texts of all kinds, and seeded '
             'random ones of up to forty calls, very deep ones, and ones larger than a page'),
    'R07': dict(
        models=[('Paging', 'MCPaging.cfg', 'MCPagingThorough.cfg')],
        runs=[dict(area='built', mode='pages', trace='ProfileTrace', gen=[
            dict(module='Paging', cfg='PagingGen.cfg', limit=1000)])],
        rule='ways of cutting three streams into pages and mixing these, with cuts within headers, records and texts, and '
             'seeded random ones with pages down to one byte; in both formats, opened in every way'),
    'R08': dict(
        models=[('MCFormat', 'MCFormat.cfg', 'MCFormatThorough.cfg')],
        runs=[dict(area='bytes', mode='bytes', trace='FormatTrace', gen=[
            dict(module='MCFormat', cfg='FormatGen.cfg', args=SIM(1500, 6), limit=600, limit_thorough=5000)])],
        rule='files made by the format model from strings of up to two parts (texts, references, virtual ids mapped twice, '
             'unmapped ids) and an event of every class, in three orders of the streams and both versions; seeded random '
             'files written through the sinks; and files of profilers used through their whole interface'),
    'R01': dict(
        models=[('MCIter', 'MCIter.cfg', 'MCIterThorough.cfg')],
        runs=[dict(area='reader', mode='iter', trace='ProfileTrace', gen=[dict(module='MCIter', cfg='IterGen.cfg')])],
        rule='every sequence of four calls from either end, skipping none or one event, on profiles of up to four events, '
             'over light and full events, and seeded random longer ones; the remaining length is asked after every call'),
    'R02': dict(
        models=[('RawEvent', 'MCRawEvent.cfg', 'MCRawEventThorough.cfg')],
        runs=[dict(area='reader', mode='formats', trace='ProfileTrace', gen=[
            dict(module='RawEvent', cfg='RawEventGen.cfg'),
            dict(module='RawEvent', cfg='RawEventGenThorough.cfg', thorough=True, limit_thorough=20000)])],
        rule='the boundary values of the encoding model, and seeded random histories, each written in both formats'),
    'R03': dict(
        models=[('MCContainer', 'MCContainer.cfg')],
        runs=[dict(area='reader', mode='refuse', trace='ContainerTrace', gen=[dict(module='MCContainer', cfg='ContainerGen.cfg')])],
        rule='every combination of header classes of the container model, all versions up to 300, random headers and '
             'contents, paths without a profile'),
    'R04': dict(
        models=[('StringCut', 'StringCut.cfg', 'StringCutThorough.cfg')],
        runs=[dict(area='reader', mode='crash', trace='CrashTrace')],
        rule='seeded histories of strings, mappings and events with flushes of any stream at any time, read back before '
             'every write to the file, with cuts inside that write, and after it; and profilers whose streams fill their '
             'pages in different orders'),
    'A01': ANALYSIS('self', 'every small recording of nested activities of two threads, with coinciding times, and its '
                    'kinds of events; longer simulated ones; seeded random profiles of up to seven threads and depth 30'),
    'A02': ANALYSIS('items', 'as A01, with cache hits, artifact sizes, and other events of these kinds'),
    'A03': ANALYSIS('stacks', 'as A01'),
    'T01': TOOL('diff', [('MCDiff', 'MCDiff.cfg'), ('MCBig', 'MCBig.cfg')], [TIMES(400, 2000)],
                'pairs of profiles: equal, disjoint, overlapping, empty, of the same items with other times; as profiles and as '
                'saved summaries in any mixture, in both directions, as JSON and as tables, with and without excluded text'),
    'T02': TOOL('summary', [('MCReport', 'MCReport.cfg', 'MCReportThorough.cfg'), ('MCBig', 'MCBig.cfg')], [TIMES(250, 1500)],
                'profiles with and without values for each optional column, equal self times, no time at all; thresholds '
                'random, at and next to the share of some item; the table and the JSON file'),
    'T03': TOOL('aggregate', [('MCAggregate', 'MCAggregate.cfg', 'MCAggregateThorough.cfg')],
                [dict(module='MCAggregate', cfg='AggregateGen.cfg', limit=200, limit_thorough=1500)],
                'up to five profiles with the same activities at other times, equal or differing in one place: kind, label, '
                'argument, nesting, number or thread of an event; more and less than ten different durations, coinciding ones'),
    'T04': TOOL('chrome', [('MCReport', 'MCReport.cfg', 'MCReportThorough.cfg')], [TIMES(300, 2000)],
                'up to four profiles given by name or directory, minimum durations at and next to those that occur, '
                'command lines with any number of crate names'),
    'T05': TOOL('lanes', [('MCLanes', 'MCLanes.cfg', 'MCLanesThorough.cfg')],
                [dict(module='MCLanes', cfg='LanesGen.cfg')],
                'every assignment of spans over few points of time to three threads; seeded random threads, instants, several profiles'),
    'T06': TOOL('view', [('MCAnalysis', 'AnalysisTimes.cfg', 'AnalysisTimesThorough.cfg')], [TIMES(200, 1500)],
                'profiles of every mixture of payload kinds, integers only included, without and with every choice of thread'),
    'T07': TOOL('truncate', [('MCTruncate', 'MCTruncate.cfg')], [dict(module='MCTruncate', cfg='TruncateGen.cfg')],
                'every interleaving of up to five pages, the same and longer ones at random cuts of real streams in both '
                'formats, and recorded profiles with several pages of events'),
    'T08': TOOL('stacks', [('MCAnalysis', 'AnalysisTimes.cfg', 'AnalysisTimesThorough.cfg')], [TIMES(200, 1500)],
                'as A03, with labels in the syntax of the files'),
    'T09': dict(
        tools=True, models=[('MCToolRun', 'MCToolRun.cfg', 'MCToolRunThorough.cfg')],
        runs=[dict(area='tools', mode='runs', trace='ToolRunTrace',
                   gen=[dict(module='MCToolRun', cfg='ToolRunGen.cfg'), dict(module='MCContainer', cfg='ContainerGen.cfg')])],
        rule='every command with every combination of input classes (several inputs: with one that is bad in each place), and '
             'with every kind of place for its result: no room, less than needed, one byte less, just enough, a full device, a '
             'directory; every combination of header classes of the container model for some of the commands'),
}

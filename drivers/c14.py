"""The output of a process is logged line by line, complete and in order."""
from launch.events import matches_action
from launch.substitutions import LaunchConfiguration

from drv.proc import *

OPTIONS = {'d_lines': {'budget': 6000000}}
CHUNKS = (b'a', b'\n', b'b\nc', b'd\n\n')


def lines_of(text):
    got = text.split('\n')
    if got[-1] == '':
        got.pop()
    return got


def session(c, loop, a, chunks, code=0, at_end=None):
    """The process writes the chunks, given as (stream, data), and ends."""
    def while_running():
        n = len(OS.started) - 1
        for stream, data in chunks:
            if stream == 'out':
                OS.started[n].protocol.on_stdout_received(data)
            else:
                OS.started[n].protocol.on_stderr_received(data)
            if data is not None:
                deliver(c)
        if at_end is not None:
            at_end()
        OS.started[n].exits(code)
    return while_running


def play(chunks, **kwargs):
    c, loop = process_model()
    a = program(output_format=kwargs.pop('output_format', '{line}'), **kwargs)
    a.visit(c)
    OS.while_running = [session(c, loop, a, chunks)]
    r = run_outcome(loop.tasks[0])
    check(r[0] == 'ok', 'the process is monitored to its end')
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'its events are processed')
    return c, loop, a


def said(tag):
    return [x[1] for x in logs(tag)]


def d_lines():
    """However the output arrives, each line is logged once, in order, and the rest at the end."""
    cached = pick(False, True)
    x, y, z = pick(*CHUNKS), pick(*CHUNKS), pick(*CHUNKS)
    c, loop, a = play([('out', x), ('out', y), ('out', z)], cached_output=cached)
    text = (x + y + z).decode()
    check(said('out') == lines_of(text), 'the lines of the output')
    check(said('err') == [], 'and nothing on the other stream')
    if cached:
        check(a.get_stdout() == text, 'the output is kept')
        check(a.get_stderr() == '', 'per stream')


def d_lines_at_once():
    """A line is logged as soon as it is complete."""
    cached = pick(False, True)
    c, loop = process_model()
    a = program(output_format='{line}', cached_output=cached)
    a.visit(c)

    def look():
        check(said('out') == ['one', 'two'], 'complete lines are logged while it runs')
        check(said('err') == ['e'], 'on both streams')
    OS.while_running = [session(c, loop, a, [
        ('out', b'on'), ('out', b'e\ntwo\nth'), ('err', b'e\n'), ('err', b'f')], at_end=look)]
    run(loop.tasks[0])
    deliver(c)
    check(said('out') == ['one', 'two', 'th'] and said('err') == ['e', 'f'], 'the rest at the end')


def d_streams_apart():
    """The two streams do not mix, however they alternate."""
    cached = pick(False, True)
    x, y = pick(*CHUNKS), pick(*CHUNKS)
    c, loop, a = play([('out', x), ('err', b'E'), ('out', y), ('err', b'F\nG')],
                      cached_output=cached)
    check(said('out') == lines_of((x + y).decode()), 'the lines of the output')
    check(said('err') == ['EF', 'G'], 'the lines of the errors')
    if cached:
        check(a.get_stdout() == (x + y).decode() and a.get_stderr() == 'EF\nG', 'both are kept')


def d_not_utf8():
    """Output that is no text does not stop the logging."""
    c, loop, a = play([('out', b'\xff\xfe\n'), ('out', b'fine\n')], cached_output=pick(False, True))
    check(len(said('out')) == 2 and said('out')[1] == 'fine', 'what follows is logged')


def d_respawned():
    """The output of a respawned process is logged like that of the first one."""
    c, loop = process_model()
    a = program(output_format='{line}', respawn=True, respawn_max_retries=1,
                cached_output=pick(False, True))
    a.visit(c)
    OS.while_running = [session(c, loop, a, [('out', b'one\ntw'), ('err', b'x')]),
                        session(c, loop, a, [('out', b'three\nfo'), ('err', b'y\n')])]
    run(loop.tasks[0])
    deliver(c)
    check(said('out') == ['one', 'tw'], 'the rest of the first at its end')
    run(loop.tasks[1])
    deliver(c)
    check(said('out') == ['one', 'tw', 'three', 'fo'], 'complete')
    check(said('err') == ['x', 'y'], 'on both streams')


def d_respawned_shorter():
    """Nothing of what the first process said shows up in the output of the second."""
    c, loop = process_model()
    a = program(output_format='{line}', respawn=True, respawn_max_retries=1,
                cached_output=pick(False, True))
    a.visit(c)
    quiet = pick(True, False)
    OS.while_running = [session(c, loop, a, [('out', b'a long rest'), ('err', b'and another long one')]),
                        session(c, loop, a, [] if quiet else [('out', b'x\n'), ('err', b'y')])]
    run(loop.tasks[0])
    deliver(c)
    run(loop.tasks[1])
    deliver(c)
    check(said('out') == ['a long rest'] + ([] if quiet else ['x']), 'on its stdout')
    check(said('err') == ['and another long one'] + ([] if quiet else ['y']), 'on its stderr')


def d_respawned_unprocessed():
    """Events of the first process still queued when it is respawned are logged in order."""
    c, loop = process_model()
    a = program(output_format='{line}', respawn=True, respawn_max_retries=1)
    a.visit(c)

    def first():
        deliver(c)
        OS.started[0].protocol.on_stdout_received(b'one\ntw')
        OS.started[0].exits(0)

    def second():
        OS.started[1].protocol.on_stdout_received(b'three\n')
        OS.started[1].exits(0)
    OS.while_running = [first, second]
    run(loop.tasks[0])
    run(loop.tasks[1])
    deliver(c)
    check(said('out') == ['one', 'tw', 'three'], 'as if processed at once')


def d_stopped():
    """What a process still says after it was asked to stop is logged as well."""
    c, loop = process_model()
    a = program(output_format='{line}', cached_output=pick(False, True))
    a.visit(c)

    def while_running():
        p = OS.started[0].protocol
        deliver(c)
        p.on_stdout_received(b'one\ntw')
        deliver(c)
        if pick(True, False):
            process_event(c, ShutdownProcess(process_matcher=matches_action(a)))
        else:
            shut_down(c)
        deliver(c)
        p.on_stdout_received(b'o\nbye\n')
        p.on_stderr_received(b'err')
        OS.started[0].exits(-2)
    OS.while_running = [while_running]
    run(loop.tasks[0])
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(said('out') == ['one', 'two', 'bye'], 'the output')
    check(said('err') == ['err'], 'the errors')


def d_late():
    """Output that is processed after the exit was is not lost."""
    c, loop = process_model()
    whole = pick(True, False)
    a = program(output_format='{line}' if whole else '{this.process_description.final_name}:{line}', cached_output=pick(False, True))
    a.visit(c)
    stopped = pick(True, False)

    def while_running():
        deliver(c)
        if stopped:
            shut_down(c)
            deliver(c)
        OS.started[0].exits(0)
    OS.while_running = [while_running]
    run(loop.tasks[0])
    deliver(c)
    OS.started[0].protocol.on_stdout_received(b'late\n')
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(''.join(said('out')).strip() == ('' if whole else a.process_description.final_name + ':') + 'late', 'it is logged')


def d_only_own():
    """A process action logs the output of its own process only."""
    c, loop = process_model()
    a, b = program(output_format='a {line}'), program(output_format='b {line}')
    a.visit(c)
    b.visit(c)

    def second():
        OS.started[1].protocol.on_stdout_received(b'y\nend')
        OS.started[1].exits(0)

    def first():
        OS.while_running = [second]
        run(loop.tasks[1])
        OS.started[0].protocol.on_stdout_received(b'x\n')
        OS.started[0].exits(0)
    OS.while_running = [first]
    run(loop.tasks[0])
    deliver(c)
    check(said('out') == ['b y', 'b end', 'a x'], 'each line once')


def d_format():
    """Each line is formatted as asked, by default with the name of the process."""
    fmt = pick('{line}', '<{line}>', None)
    c, loop = process_model()
    a = ExecuteProcess(cmd=['prog'], name='me', **({} if fmt is None else {'output_format': fmt}))
    a.visit(c)
    OS.while_running = [session(c, loop, a, [('out', b'x\ny')])]
    run(loop.tasks[0])
    deliver(c)
    name = '[' + a.process_details['name'] + '] '
    want = {'{line}': ['x', 'y'], '<{line}>': ['<x>', '<y>'], None: [name + 'x', name + 'y']}[fmt]
    check(said('out') == want, 'formatted')


def d_not_cached():
    """Without cached output asking for it is an error."""
    c, loop, a = play([('out', b'x\n')])
    r = outcome(a.get_stdout)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'the output')
    r = outcome(a.get_stderr)
    check(r[0] == 'raise' and isinstance(r[1], RuntimeError), 'the errors')


def d_output_config():
    """The output goes where the action says, unless the environment overrides it."""
    c, loop = process_model()
    over = pick(None, 'both')
    given = pick('screen', 'substitution', 'dict')
    environ({} if over is None else {'OVERRIDE_LAUNCH_PROCESS_OUTPUT': over})
    c.launch_configurations['o'] = 'full'
    a = program(output={'screen': 'screen', 'substitution': LaunchConfiguration('o'),
                        'dict': {'stdout': 'log', 'stderr': 'screen'}}[given])
    stub('launch.logging.get_output_loggers', config)
    a.visit(c)
    want = {'screen': 'screen', 'substitution': 'full',
            'dict': {'stdout': {'log'}, 'stderr': {'screen'}}}[given]
    got = logs('config')[0][2]
    if over is not None:
        check(got == 'both', 'the environment overrides')
    elif given == 'dict':
        check(got['stdout'] in ('log', {'log'}) and got['stderr'] in ('screen', {'screen'}), 'per stream')
    else:
        check(got == want, 'as given')
    check(logs('config')[0][1] == a.process_details['name'], 'under the name of the process')


def config(name, conf):
    log('config', name, conf)
    return (Out('out'), Out('err'))


def d_output_told():
    """An action tells the output configuration it was given, without evaluating it, before as after."""
    c, loop = process_model()
    c.launch_configurations['o'] = 'full'
    o = LaunchConfiguration('o')
    given, want = pick((o, [o]), ([o, o], [o, o]), ({'stdout': 'log'}, None))
    a = program(output=given)
    stub('launch.logging.get_output_loggers', config)
    for i in (0, 1):
        if want is None:
            check(list(a.output) == ['stdout'] and a.output['stdout'] in ('log', {'log'}), 'per stream')
        else:
            check(list(a.output) == want, 'as given')
        if i == 0:
            a.visit(c)


def d_blanks():
    """Blanks belong to a line, wherever they are and however it arrives."""
    cached = pick(False, True)
    x, y = pick(b'  a', b'a \t', b' ', b'\t\n'), pick(b' ', b' b\n', b'\n  ', b'\r\n')
    c, loop, a = play([('out', x), ('err', y), ('out', y), ('err', x)], cached_output=cached)
    check(said('out') == lines_of((x + y).decode()), 'the lines of the output')
    check(said('err') == lines_of((y + x).decode()), 'the lines of the errors')


def d_undecodable():
    """A byte that is no text is shown as such, not dropped; nothing around it is lost."""
    c, loop, a = play([('out', b'a\xffb\nc\xfe'), ('err', b'\xff')], cached_output=pick(False, True))
    check(said('out') == ['a\ufffdb', 'c\ufffd'], 'the output')
    check(said('err') == ['\ufffd'], 'the errors')


def d_late_rest():
    """A rest which arrives after the exit was processed is not lost, complete line or not."""
    c, loop = process_model()
    a = program(output_format='{line}')
    a.visit(c)
    text = pick(b'rest', b'one\nrest', b'line\n')

    def while_running():
        deliver(c)
        shut_down(c)
        deliver(c)
        OS.started[0].exits(0)
    OS.while_running = [while_running]
    run(loop.tasks[0])
    deliver(c)
    getattr(OS.started[0].protocol, pick('on_stdout_received', 'on_stderr_received'))(text)
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    got = said('out') + said('err')
    check('\n'.join(got).strip() == text.decode().strip(), 'it is logged')


def d_stop_while_respawning():
    """A respawned process stopped before it ran still has its output logged line by line."""
    c, loop = process_model()
    a = program(output_format='{line}', respawn=True, cached_output=pick(False, True))
    a.visit(c)
    n = pick('before the exit is processed', 'after')

    def first():
        OS.started[0].protocol.on_stdout_received(b'x\ny')
        OS.started[0].exits(1)

    def second():
        deliver(c)
        OS.started[1].protocol.on_stdout_received(b'bye b')
        deliver(c)
        OS.started[1].protocol.on_stdout_received(b'ye\nend')
        deliver(c)
        OS.started[1].exits(-2)
    OS.while_running = [first, second]
    run(loop.tasks[0])
    if n == 'after':
        deliver(c)
    shut_down(c)
    deliver(c)
    run(loop.tasks[1])
    r = outcome(deliver, c)
    check(r[0] == 'ok', 'no error')
    check(said('out') == ['x', 'y', 'bye bye', 'end'], 'the lines of both')

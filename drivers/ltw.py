"""Launch tests run by the runner: the environment (never run)."""
import unittest

from launch import LaunchDescription
from launch import LaunchService
from launch.actions import DeclareLaunchArgument
from launch.actions import OpaqueFunction
from launch.actions import GroupAction
from launch_testing.actions import ReadyToTest
from launch_testing.decorator import post_shutdown_test
from launch_testing.loader import LoadTestsFromPythonModule
from launch_testing.markers import keep_alive
from launch_testing.markers import retry_on_failure
from launch_testing.parametrize import parametrize
from launch_testing.ready_to_test_action_timeout import ready_to_test_action_timeout
from launch_testing.test_runner import LaunchTestRunner

from drv.svc import *
from drv.lt import *

import sys
import xml.etree.ElementTree as ET


class Namespace:
    """A test module."""

    __file__ = '/tests/test_it.py'

    def __init__(self, **names):
        for k, v in names.items():
            setattr(self, k, v)


class Thread:
    """The thread of the tests: takes its turn when the world says so."""

    started = []

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = kwargs or {}
        self.daemon = daemon

    def start(self):
        log('thread started')
        Thread.started.append(self)

    def turn(self):
        log('thread runs')
        stub('osrf_pycommon.process_utils.get_loop', no_loop)
        self.target(*self.args, **self.kwargs)
        stub('osrf_pycommon.process_utils.get_loop', get_loop)
        log('thread ends')

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False


def no_loop():
    raise RuntimeError('no event loop in this thread')


def threadsafe(coro, loop):
    check(loop is get_loop(), 'the loop of the launch')
    return Done(run(coro))


class Done:
    """A future which is done."""

    def __init__(self, value):
        self.value = value

    def result(self, timeout=None):
        return self.value


class Event:
    """threading.Event: nothing else happens while somebody waits."""

    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def wait(self, timeout=None):
        if not self.flag:
            log('waited', timeout)
            if timeout is None:
                log('stuck')
                raise Stuck()
        return self.flag


def run_service(self, *, shutdown_when_idle=True):
    World.service = self
    log('launch', shutdown_when_idle)
    r = serve(self, shutdown_when_idle=shutdown_when_idle)
    log('launch ended')
    if r[0] == 'raise':
        raise r[1]
    return r[1]


class Clock:
    now = 100

    def read():
        Clock.now += 1
        return Clock.now


def test_world(*stimuli):
    make_service()
    Clock.now = 100
    stub('time.time', Clock.read)
    stub('threading.Thread', Thread)
    stub('threading.Event', Event)
    stub('threading.Lock', Lock)
    stub('threading.RLock', Lock)
    stub('threading.Condition', Lock)
    stub('warnings.warn', None)
    stub('launch.launch_service.LaunchService.run', run_service)
    stub('os.path.exists', False)
    environ({})
    stub('asyncio.run_coroutine_threadsafe', threadsafe)
    Thread.started = []
    World.stimuli = list(stimuli)


def turn():
    Thread.started[-1].turn()


class Before(unittest.TestCase):

    def test_one(self):
        log('test', 'one')
        happen('one')

    def test_two(self):
        log('test', 'two')


class After(unittest.TestCase):
    __post_shutdown_test__ = True

    def test_three(self):
        log('test', 'three')
        happen('three')


class Bad:
    where = None
    how = None


def happen(where):
    if Bad.where == where:
        raise Bad.how('it is so')


def describe(*more):
    p = Fixture()
    return LaunchDescription([p, *more, ReadyToTest()])


def load(description, *classes):
    names = {'T%d' % i: c for i, c in enumerate(classes or (Before, After))}
    return LoadTestsFromPythonModule(
        Namespace(generate_test_description=description, **names), name='name')


def executed():
    return [x[1] for x in logs('test')]


def order():
    return [x[0] if x[0] != 'test' else x[1] for x in logs(
        'launch', 'launched', 'thread started', 'thread runs', 'thread ends', 'test', 'launch ended')]


def ids(cases):
    return sorted([c.id().split('.')[-1] for c in cases])

"""unittest, as far as launch tests use it: written after CPython 3.12's (never run)."""


class SkipTest(Exception):
    pass


class _ShouldStop(Exception):
    pass


class _UnexpectedSuccess(Exception):
    pass


def skip(reason):
    def decorator(test_item):
        if not isinstance(test_item, type):
            def skip_wrapper(*args, **kwargs):
                raise SkipTest(reason)
            test_item = skip_wrapper
        test_item.__unittest_skip__ = True
        test_item.__unittest_skip_why__ = reason
        return test_item
    return decorator


def skipIf(condition, reason):
    return skip(reason) if condition else _id


def skipUnless(condition, reason):
    return _id if condition else skip(reason)


def _id(obj):
    return obj


def expectedFailure(test_item):
    test_item.__unittest_expecting_failure__ = True
    return test_item


class TestResult:

    def __init__(self, stream=None, descriptions=None, verbosity=None):
        self.failfast = False
        self.failures = []
        self.errors = []
        self.testsRun = 0
        self.skipped = []
        self.expectedFailures = []
        self.unexpectedSuccesses = []
        self.collectedDurations = []
        self.shouldStop = False
        self.buffer = False

    def startTest(self, test):
        self.testsRun += 1

    def stopTest(self, test):
        pass

    def startTestRun(self):
        pass

    def stopTestRun(self):
        pass

    def addError(self, test, err):
        self.errors.append((test, self._exc_info_to_string(err, test)))

    def addFailure(self, test, err):
        self.failures.append((test, self._exc_info_to_string(err, test)))

    def addSubTest(self, test, subtest, err):
        if err is not None:
            if issubclass(err[0], test.failureException):
                errors = self.failures
            else:
                errors = self.errors
            errors.append((subtest, self._exc_info_to_string(err, test)))

    def addSuccess(self, test):
        pass

    def addSkip(self, test, reason):
        self.skipped.append((test, reason))

    def addExpectedFailure(self, test, err):
        self.expectedFailures.append((test, self._exc_info_to_string(err, test)))

    def addUnexpectedSuccess(self, test):
        self.unexpectedSuccesses.append(test)

    def addDuration(self, test, elapsed):
        pass

    def wasSuccessful(self):
        return len(self.failures) == 0 and len(self.errors) == 0 and \
            len(self.unexpectedSuccesses) == 0

    def stop(self):
        self.shouldStop = True

    def _exc_info_to_string(self, err, test):
        return '%s: %s\n' % (err[0].__name__, err[1])


class TextTestResult(TestResult):

    def __init__(self, stream, descriptions, verbosity, *, durations=None):
        super().__init__(stream, descriptions, verbosity)
        self.stream = stream
        self.showAll = verbosity > 1
        self.dots = verbosity == 1
        self.descriptions = descriptions

    def printErrors(self):
        pass


class TextTestRunner:

    def __init__(self, stream=None, descriptions=True, verbosity=1, failfast=False, buffer=False,
                 resultclass=None, warnings=None, *, tb_locals=False, durations=None):
        self.descriptions = descriptions
        self.verbosity = verbosity
        self.failfast = failfast
        self.stream = stream
        self.resultclass = TextTestResult if resultclass is None else resultclass

    def run(self, test):
        result = self.resultclass(self.stream, self.descriptions, self.verbosity)
        result.failfast = self.failfast
        result.startTestRun()
        try:
            test(result)
        finally:
            result.stopTestRun()
        result.printErrors()
        return result


class _Outcome:

    def __init__(self, result=None):
        self.expecting_failure = False
        self.result = result
        self.result_supports_subtests = hasattr(result, 'addSubTest')
        self.success = True
        self.expectedFailure = None

    def part(self, test_case, f, subtest=False):
        old_success = self.success
        self.success = True
        try:
            f()
        except KeyboardInterrupt:
            raise
        except SkipTest as e:
            self.success = False
            self.result.addSkip(test_case, str(e))
        except _ShouldStop:
            pass
        except BaseException as e:
            self.failed(test_case, (type(e), e, None), subtest)
        else:
            if subtest and self.success:
                self.result.addSubTest(test_case.test_case, test_case, None)
        finally:
            self.success = self.success and old_success

    def failed(self, test_case, err, subtest):
        if self.expecting_failure:
            self.expectedFailure = err
        else:
            self.success = False
            if subtest:
                self.result.addSubTest(test_case.test_case, test_case, err)
            elif issubclass(err[0], test_case.failureException):
                self.result.addFailure(test_case, err)
            else:
                self.result.addError(test_case, err)


class TestCase:
    failureException = AssertionError

    def __init__(self, methodName='runTest'):
        self._testMethodName = methodName
        self._outcome = None
        self._cleanups = []
        self._subtest = None
        getattr(self, methodName)

    def setUp(self):
        pass

    def tearDown(self):
        pass

    @classmethod
    def setUpClass(cls):
        pass

    @classmethod
    def tearDownClass(cls):
        pass

    def countTestCases(self):
        return 1

    def addCleanup(self, function, /, *args, **kwargs):
        self._cleanups.append((function, args, kwargs))

    def id(self):
        return '%s.%s.%s' % (self.__class__.__module__, self.__class__.__qualname__,
                             self._testMethodName)

    def shortDescription(self):
        return None

    def __str__(self):
        return '%s (%s)' % (self._testMethodName, self.id())

    def run(self, result=None):
        result.startTest(self)
        try:
            method = getattr(self, self._testMethodName)
            if getattr(self.__class__, '__unittest_skip__', False) or \
                    getattr(method, '__unittest_skip__', False):
                result.addSkip(self, getattr(self.__class__, '__unittest_skip_why__', '') or
                               getattr(method, '__unittest_skip_why__', ''))
                return result
            expecting = getattr(self, '__unittest_expecting_failure__', False) or \
                getattr(method, '__unittest_expecting_failure__', False)
            outcome = _Outcome(result)
            try:
                self._outcome = outcome
                outcome.part(self, self.setUp)
                if outcome.success:
                    outcome.expecting_failure = expecting
                    outcome.part(self, method)
                    outcome.expecting_failure = False
                    outcome.part(self, self.tearDown)
                while self._cleanups:
                    function, args, kwargs = self._cleanups.pop()
                    outcome.part(self, lambda: function(*args, **kwargs))
                if outcome.success:
                    if expecting:
                        if outcome.expectedFailure:
                            result.addExpectedFailure(self, outcome.expectedFailure)
                        else:
                            result.addUnexpectedSuccess(self)
                    else:
                        result.addSuccess(self)
                return result
            finally:
                self._outcome = None
        finally:
            result.stopTest(self)

    def __call__(self, *args, **kwds):
        return self.run(*args, **kwds)

    def subTest(self, msg=None, **params):
        return _SubTestContext(self, msg, params)

    def skipTest(self, reason):
        raise SkipTest(reason)

    def fail(self, msg=None):
        raise self.failureException(msg)

    def assertTrue(self, expr, msg=None):
        if not expr:
            raise self.failureException(msg)

    def assertFalse(self, expr, msg=None):
        if expr:
            raise self.failureException(msg)

    def assertEqual(self, first, second, msg=None):
        if not first == second:
            raise self.failureException(msg)

    def assertIn(self, member, container, msg=None):
        if member not in container:
            raise self.failureException(msg)


class _SubTest(TestCase):

    def __init__(self, test_case, message, params):
        super().__init__()
        self._message = message
        self.test_case = test_case
        self.params = params
        self.failureException = test_case.failureException

    def runTest(self):
        raise NotImplementedError('subtests cannot be run directly')

    def id(self):
        parts = []
        if self._message is not None:
            parts.append('[%s]' % self._message)
        if self.params:
            parts.append('(%s)' % ', '.join('%s=%r' % (k, v) for k, v in self.params.items()))
        return '%s %s' % (self.test_case.id(), ' '.join(parts) or '(<subtest>)')


class _SubTestContext:

    def __init__(self, test_case, msg, params):
        self.test_case = test_case
        self.msg = msg
        self.params = params

    def __enter__(self):
        outcome = self.test_case._outcome
        if outcome is None or not outcome.result_supports_subtests:
            return None
        self.subtest = _SubTest(self.test_case, self.msg, self.params)
        self.old_success = outcome.success
        outcome.success = True
        return None

    def __exit__(self, t, e, tb):
        outcome = self.test_case._outcome
        if outcome is None or not outcome.result_supports_subtests:
            return False
        if t is not None and issubclass(t, KeyboardInterrupt):
            return False
        if t is None:
            if outcome.success:
                outcome.result.addSubTest(self.test_case, self.subtest, None)
        elif issubclass(t, SkipTest):
            outcome.success = False
            outcome.result.addSkip(self.subtest, str(e))
        elif not issubclass(t, _ShouldStop):
            outcome.failed(self.subtest, (t, e, tb), True)
        outcome.success = outcome.success and self.old_success
        if not outcome.success:
            if outcome.result.failfast:
                raise _ShouldStop
        elif outcome.expectedFailure:
            raise _ShouldStop
        return True


class TestSuite:
    _cleanup = True

    def __init__(self, tests=()):
        self._tests = []
        self._removed_tests = 0
        self.addTests(tests)

    def __iter__(self):
        return iter(self._tests)

    def countTestCases(self):
        cases = self._removed_tests
        for test in self._tests:
            if test:
                cases += test.countTestCases()
        return cases

    def addTest(self, test):
        self._tests.append(test)

    def addTests(self, tests):
        for test in tests:
            self.addTest(test)

    def __call__(self, *args, **kwds):
        return self.run(*args, **kwds)

    def run(self, result, debug=False):
        top_level = False
        if getattr(result, '_testRunEntered', False) is False:
            result._testRunEntered = top_level = True
        for index, test in enumerate(self):
            if result.shouldStop:
                break
            if not isinstance(test, TestSuite):
                self._tear_down_previous(test, result)
                self._set_up_class(test, result)
                result._previousTestClass = test.__class__
                if getattr(test.__class__, '_classSetupFailed', False):
                    continue
            test(result)
            if self._cleanup:
                self._removeTestAtIndex(index)
        if top_level:
            self._tear_down_previous(None, result)
            result._testRunEntered = False
        return result

    def _removeTestAtIndex(self, index):
        test = self._tests[index]
        if hasattr(test, 'countTestCases'):
            self._removed_tests += test.countTestCases()
        self._tests[index] = None

    def _set_up_class(self, test, result):
        previous = getattr(result, '_previousTestClass', None)
        current = test.__class__
        if current == previous or getattr(current, '__unittest_skip__', False):
            return
        current._classSetupFailed = False
        try:
            current.setUpClass()
        except Exception as e:
            current._classSetupFailed = True
            self._class_failed(result, 'setUpClass', current, e)

    def _tear_down_previous(self, test, result):
        previous = getattr(result, '_previousTestClass', None)
        if previous is None or test is not None and test.__class__ == previous or \
                getattr(previous, '_classSetupFailed', False) or \
                getattr(previous, '__unittest_skip__', False):
            return
        try:
            previous.tearDownClass()
        except Exception as e:
            self._class_failed(result, 'tearDownClass', previous, e)

    def _class_failed(self, result, what, cls, e):
        error = _ErrorHolder('%s (%s.%s)' % (what, cls.__module__, cls.__qualname__))
        if isinstance(e, SkipTest):
            result.addSkip(error, str(e))
        else:
            result.addError(error, (type(e), e, None))


class _ErrorHolder:
    failureException = None

    def __init__(self, description):
        self.description = description

    def id(self):
        return self.description

    def __str__(self):
        return self.description

    def countTestCases(self):
        return 0


class TestLoader:
    testMethodPrefix = 'test'
    suiteClass = TestSuite

    def getTestCaseNames(self, testCaseClass):
        return [n for n in dir(testCaseClass) if n.startswith(self.testMethodPrefix) and
                callable(getattr(testCaseClass, n))]

    def loadTestsFromTestCase(self, testCaseClass):
        names = self.getTestCaseNames(testCaseClass)
        if not names and hasattr(testCaseClass, 'runTest'):
            names = ['runTest']
        return self.suiteClass([testCaseClass(n) for n in names])

    def loadTestsFromModule(self, module, *, pattern=None):
        tests = []
        for name in [n for n in dir(module) if not n.startswith('__')]:
            obj = getattr(module, name)
            if isinstance(obj, type) and issubclass(obj, TestCase) and obj is not TestCase:
                tests.append(self.loadTestsFromTestCase(obj))
        return self.suiteClass(tests)

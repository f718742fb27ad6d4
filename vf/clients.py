"""Harness for the clients of remote devices (B09): the real client code talks to a server whose behaviour - sizes, states of the job,
failures - is free.  The server records what it is asked and checks that questions about a job name the job."""
import contextlib
import io
import json
import re
import signal
import time

from . import sym as S
from .engine import PathAbort

ID = 'arn:x:y:us-west-1:job/77'


class Fault(Exception):
    pass


class Server:
    """the far end: free choices are made when they are first needed"""

    def __init__(self, h, service, faults, interrupts):
        self.h, self.service = h, service
        self.faults, self.interrupts = faults, interrupts
        self.submitted, self.finished, self.polls, self.requests, self.slept = [], [], 0, 0, []
        self.lists = 0
        self.final = None            # how the job ended
        self.handler = None
        self.started = None

    # ---------------------------------------------------------------- choices
    def request(self):
        """a request arrives; it may fail"""
        k = self.requests
        self.requests += 1
        if self.faults and self.final is None and not self.broken:
            f = self.h.choice('request %d' % k, ['ok'] + self.faults)
            if f != 'ok':
                self.final = f
                return f
        return None
    broken = False

    def devices(self):
        """names of the devices that are listed"""
        k = self.lists
        self.lists += 1
        if k < 2:
            self.listed = self.h.choice('list %d' % k, [True, False])
        return self.listed

    def poll(self, states):
        self.polls += 1
        self.h.true('no question after the end of the job', self.final is None, self.final)
        if self.interrupts and self.h.choice('interrupt %d' % self.polls, [False, True]):
            self.final = 'interrupt'
            f = signal.getsignal(signal.SIGINT)
            self.h.true('interrupts are handled while waiting', callable(f) and f is not self.original)
            f(signal.SIGINT, None)
            self.h.fail('an interrupt ends the waiting')
        s = self.h.choice('state %d' % self.polls, states)
        self.final = {'done': 'done', 'wait': None}.get(s, 'failed')
        return s

    def sleep(self, t):
        self.slept.append(t)


class Response:
    def __init__(self, fault, data):
        self.fault, self.data = fault, data

    def raise_for_status(self):
        import requests
        if self.fault and self.fault.startswith('http'):
            r = requests.Response()
            r.status_code = int(self.fault[4:])
            r._content = b'{"error": "e", "message": "m"}'
            raise requests.exceptions.HTTPError('HTTP', response=r)

    def json(self):
        return self.data


class Web(Server):
    """requests.Session"""

    def answer(self, data):
        import requests
        f = self.request()
        if f == 'connection':
            raise requests.exceptions.ConnectionError('lost')
        if f == 'timeout':
            raise requests.exceptions.ReadTimeout('late')
        return Response(f, {} if f else data() if callable(data) else data)

    def call(self, session, how, url, kw):
        return getattr(self, self.service)(session, how, url, kw)

    # -- IonQ
    def ionq(self, session, how, url, kw):
        h = self.h
        if url.endswith('/backends') and how == 'get':
            return self.answer(lambda: [dict(backend='qpu.big', qubits=self.size)] if self.devices() else [dict(backend='other', qubits=40)])
        h.true('authorised', session.headers.get('Authorization') == 'apiKey ' + self.token)
        if how == 'post':
            def new():
                self.submitted.append(kw['json'])
                s = h.choice('accepted', ['ready', 'failed', 'canceled'])
                if s != 'ready':
                    self.final = 'refused'
                    return dict(status=s, failure=h.choice('reason', [None, dict(code='c', error='e')]), id=ID)
                return dict(status=s, id=ID)
            h.true('submission goes to the job service', url == 'https://api.ionq.co/v0.2/jobs', url)
            return self.answer(new)
        h.true('questions name the job', url.endswith(ID) or url.endswith('/jobs/77'), url)

        def state():
            s = self.poll(['done', 'wait', 'failed', 'canceled'])
            if s == 'wait':
                s = ['ready', 'running', 'submitted'][self.polls % 3]
                return dict(status=s, id=ID, qubits=3)
            if s == 'done':
                return dict(status='completed', id=ID, qubits=self.nq, registers=dict(meas_mapped=[2, 0]), metadata=dict(meas_qubit_ids='[4, 7]'), data=dict(histogram={}, registers=dict(meas_mapped=self.table)))
            return dict(status=s, id=ID)
        return self.answer(state)

    def ionq_done(self, res):
        self.h.true('answer', res == dict(nq=self.nq, output_probs=self.table, meas_mapped=[2, 0], meas_qubit_ids=[4, 7]), res)

    def ionq_job(self, a, info):
        h = self.h
        h.true('the job as given', a['target'] == 'qpu.big' and a['lang'] == 'json' and a['body']['circuit'] == info['circuit'] and json.loads(a['metadata']['meas_qubit_ids']) == info['meas_qubit_ids']
               and a['registers'] == dict(meas_mapped=info['meas_mapped']), a)
        h.same('number of runs', a['shots'], info['shots'])
        h.same('size of the register', a['body']['qubits'], info['nq'])

    # -- AQT
    def aqt(self, session, how, url, kw):
        h = self.h
        h.true('authorised', session.headers.get('Ocp-Apim-Subscription-Key') == self.token)
        h.true('asks the chosen device', how == 'put' and url == 'https://gateway.aqt.eu/marmot/' + dict(aqt_simulator='sim/', aqt_device='lint/')[self.device], url)
        if 'data' in kw['data']:
            def new():
                self.submitted.append(kw['data'])
                if not h.choice('accepted', [True, False]):
                    self.final = 'refused'
                    return dict(status='error')
                return dict(status='queued', id=ID)
            return self.answer(new)
        h.true('questions name the job', kw['data'] == dict(id=ID, access_token=self.token), kw)

        def state():
            s = self.poll(['done', 'done without a word', 'wait', 'error'])
            if s == 'done':
                return dict(status='finished', samples=self.table)
            if s == 'done without a word':
                self.final = 'done'
                return dict(status='running', samples=self.table)
            return dict(status=dict(wait='running').get(s, s))
        return self.answer(state)

    def aqt_done(self, res):
        self.h.true('answer', res == self.table, res)

    def aqt_job(self, a, info):
        self.h.true('the job as given', a['data'] == info['circuit'] and a['access_token'] == self.token)
        self.h.same('number of runs', a['repetitions'], info['shots'])
        self.h.same('size of the register', a['no_qubits'], info['nq'])

    # -- IBM
    def ibm(self, session, how, url, kw):
        h = self.h
        base = 'https://api.quantum-computing.ibm.com/api/Network/ibm-q/Groups/open/Projects/main/'
        if url.endswith('loginWithToken'):
            h.true('authorised', kw['json'] == {'apiToken': self.token})
            return self.answer(dict(id='access'))
        h.true('authorised', session.params.get('access_token') == 'access')
        if url == base + 'devices/v/1':
            return self.answer(lambda: [dict(backend_name='small', n_qubits=0, coupling_map=[], backend_version='1')]
                               + ([dict(backend_name=self.device, n_qubits=self.size, coupling_map=[[0, 1]], backend_version='3.4')] if self.devices() else []))
        if url == base + 'Jobs':
            def new():
                self.submitted.append([kw['json']['backend']['name']])
                return dict(id=ID, objectStorageInfo=dict(uploadUrl='https://store/1'))
            return self.answer(new)
        if url == 'https://store/1':
            h.true('one upload', how == 'put' and len(self.submitted) == 1 and len(self.submitted[0]) == 1)
            self.submitted[0].append(kw['data'])
            return self.answer({})
        job = base + 'Jobs/' + ID
        if url == job + '/jobDataUploaded':
            h.true('uploaded before it is confirmed', len(self.submitted[0]) == 2)
            self.submitted[0].append(True)
            return self.answer({})
        h.true('questions name the job', url.startswith(job) or url == 'https://result/' + ID, url)
        if url == job:
            return self.answer(lambda: dict(status={'done': 'COMPLETED', 'wait': ['VALIDATING', 'VALIDATED', 'RUNNING'][self.polls % 3]}.get(*[self.poll(['done', 'wait', 'ERROR_RUNNING_JOB', 'CANCELLED'])] * 2)))
        if url == job + '/resultDownloadUrl':
            return self.answer(dict(url='https://result/' + ID))
        if url == 'https://result/' + ID:
            return Response(None, dict(results=[dict(data=dict(counts=self.table))]))
        h.true('a known request', url == job + '/resultDownloaded' and how == 'post', url)
        return Response(None, {})

    def ibm_done(self, res):
        self.h.true('answer', res == dict(data=dict(counts=self.table)), res)

    def ibm_job(self, a, info):
        h = self.h
        h.true('the job is complete', len(a) == 3 and a[0] == self.device, a[:1])
        from .device import number
        d = json.loads(re.sub(r'(SYM\d+)', lambda m: str(number(m.group(1)).__index__()), a[1]))
        n = info['nq'].__index__()
        e = d['experiments']
        h.true('the job as given', d['header'] == dict(backend_name=self.device, backend_version='3.4') and len(e) == 1 and e[0]['instructions'] == info['json'] and d['type'] == 'QASM', d)
        c = d['config']
        h.true('number of runs', c['shots'] == info['shots'] and c['max_credits'] == info['maxCredits'], c)
        x = e[0]['header']
        h.true('size of the register', c['n_qubits'] == c['memory_slots'] == x['n_qubits'] == x['memory_slots'] == e[0]['config']['n_qubits'] == e[0]['config']['memory_slots'] == n
               and x['qubit_labels'] == [['q', i] for i in range(n)] and x['clbit_labels'] == [['c', i] for i in range(n)] and x['qreg_sizes'] == [['q', n]] and x['creg_sizes'] == [['c', n]], d)


class Braket(Server):
    """boto3"""
    DEVICES = dict(SV1=('SIMULATOR', 'us-east-1', 'arn:sv1'), Aspen=('QPU', 'us-west-1', 'arn:aspen'), Ion=('QPU', 'us-east-1', 'arn:ion'))

    def client(self, what, region_name=None, aws_access_key_id=None, aws_secret_access_key=None):
        h, far = self.h, self
        h.true('authorised', (aws_access_key_id, aws_secret_access_key) == ('key', 'secret'))

        def check():
            import botocore.exceptions
            f = far.request()
            if f:
                raise botocore.exceptions.ClientError({'Error': {'Code': f, 'Message': 'm'}}, 'op')

        class Client:
            def search_devices(self, filters):
                check()
                out = [dict(deviceName=n, deviceType=t, deviceArn=a) for n, (t, r, a) in far.DEVICES.items() if r == region_name and (n != far.device or far.devices())]
                return dict(devices=out + [dict(deviceName='odd', deviceType='OTHER', deviceArn='arn:odd')])

            def get_device(self, deviceArn):
                check()
                n, (t, r, a) = [(n, d) for n, d in far.DEVICES.items() if d[2] == deviceArn][0]
                h.true('asks the region of the device', r == region_name or far.polls)
                cap = dict(paradigm=dict(qubitCount=far.size if n == far.device else 1, connectivity=dict(connectivityGraph={})), braketSchemaHeader=dict(version='1'),
                           deviceParameters=dict(properties=dict(braketSchemaHeader=dict(const=n + ' parameters')), definitions=dict(GateModelParameters=dict(properties=dict(braketSchemaHeader=dict(const=n + ' model'))))))
                return dict(deviceName=n, deviceType=t, deviceCapabilities=cap if far.h.symbolic else json.dumps(cap))

            def create_quantum_task(self, **kw):
                check()
                h.true('in the region of the device', region_name == far.DEVICES[far.device][1], region_name)
                far.submitted.append(kw)
                return dict(quantumTaskArn=ID)

            def get_quantum_task(self, quantumTaskArn):
                check()
                h.true('questions name the job', quantumTaskArn == ID and region_name == 'us-west-1', quantumTaskArn)
                s = far.poll(['done', 'wait', 'FAILED', 'CANCELLING'])
                s = {'done': 'COMPLETED', 'wait': ['CREATED', 'QUEUED', 'RUNNING'][far.polls % 3]}.get(s, s)
                return dict(status=s, outputS3Bucket='bucket', outputS3Directory='folder/77', deviceArn=far.DEVICES[far.device][2], failureReason='r')

            def get_object(self, Bucket, Key):
                check()
                h.true('reads the result of the job', (what, Bucket, Key) == ('s3', 'bucket', 'folder/77/results.json'), '%s %s' % (Bucket, Key))
                sim = far.DEVICES[far.device][0] == 'SIMULATOR'
                return dict(Body=io.StringIO(json.dumps(dict(measurements=far.table) if sim else dict(measurementProbabilities=far.table))))
        return Client()

    def braket_done(self, res):
        h = self.h
        if self.DEVICES[self.device][0] == 'QPU':
            h.true('answer', res == self.table, res)
            return
        want = {}
        for m in self.table:
            k = ''.join(map(str, m))
            want[k] = want.get(k, 0) + 1.0 / len(self.table)
        h.true('outcomes', set(res) == set(want), res)
        for k in want:
            h.same('probability of an outcome', res[k], want[k])

    def braket_job(self, a, info):
        h = self.h
        h.true('the job as given', a['action'] == info['circuit'] and a['deviceArn'] == self.DEVICES[self.device][2] and (a['outputS3Bucket'], a['outputS3KeyPrefix']) == ('b', 'd'), a)
        h.same('number of runs', a['shots'], info['shots'])
        p = a['deviceParameters']
        p = json.loads(re.sub(r'"?(SYM\d+)"?', r'"\1"', p)) if isinstance(p, str) else p
        n = p['paradigmParameters']['qubitCount']
        from .device import number
        h.same('size of the register', number(n), info['nq'])
        h.true('parameters of the device', p['braketSchemaHeader'] == self.device + ' parameters' and p['paradigmParameters']['braketSchemaHeader'] == self.device + ' model' and p['paradigmParameters']['disableQubitRewiring'] is False, p)


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


MODULES = dict(ionq='projectq.backends._ionq._ionq_http_client', aqt='projectq.backends._aqt._aqt_http_client', ibm='projectq.backends._ibm._ibm_http_client', braket='projectq.backends._awsbraket._awsbraket_boto3_client')
SIZES = dict(aqt_simulator=11, aqt_device=4)


def remote(h, service, device, what, retries, faults=(), interrupts=False, verbose=False):
    """what: send | retrieve; retries: how often the state of the job is asked for at most"""
    import importlib
    m = importlib.import_module(MODULES[service])
    far = (Braket if service == 'braket' else Web)(h, service, list(faults), interrupts)
    far.device, far.token = device, 'secret token'
    small = 4 if service == 'ibm' else 40
    far.size = SIZES[device] if service == 'aqt' else h.int('size of the device', 1, small)
    far.nq = h.int('size of the job', 1, small)
    shots = 33 if service == 'ibm' else h.int('runs', 1, 10000)
    if service == 'braket' and device == 'SV1':
        far.table = [h.choice('outcome %d' % i, [[0, 1], [1, 0], [1, 1]]) for i in range(3)]
    else:
        far.table = h.choice('outcomes', [{'1': 0.25, '2': 0.75}, {'0': 1.0}]) if service != 'aqt' else [2, 0, 1]
    interval = 7
    info = dict(nq=far.nq, shots=shots, meas_mapped=[2, 0], meas_qubit_ids=[4, 7], circuit=[{'gate': 'x', 'targets': [1]}] if service == 'ionq' else '[["X", 0.5, [0]]]', json=[{'name': 'u1', 'qubits': [0], 'params': [0.5]}], maxCredits=5)
    sent = dict(info)
    kw = dict(num_retries=retries, interval=interval, verbose=verbose)
    if service == 'braket':
        kw['credentials'] = dict(AWS_ACCESS_KEY_ID='key', AWS_SECRET_KEY='secret')
        kw.update(dict(info=info, device=device, s3_folder=['b', 'd']) if what == 'send' else dict(task_arn=ID))
    else:
        kw.update(device=device, token=far.token)
        kw.update(dict(info=info) if what == 'send' else dict(jobid=ID))
        if service == 'ibm' and what == 'send':
            kw['shots'] = h.choice('shots given again', [None, 21])
            sent['shots'] = kw['shots'] or 33
    far.original = signal.getsignal(signal.SIGINT)
    plain_json = m.json if hasattr(m, 'json') else json

    class Json:
        """numbers in texts stay symbolic"""
        @staticmethod
        def loads(x):
            return x if not isinstance(x, str) else plain_json.loads(x)
        dumps = staticmethod(lambda x: x if h.symbolic and 'paradigmParameters' in x else plain_json.dumps(x))
    with contextlib.ExitStack() as st:
        st.enter_context(contextlib.redirect_stdout(io.StringIO()))
        clock = m.time if hasattr(m, 'time') else time
        st.enter_context(patched(clock, sleep=far.sleep))
        if service == 'braket':
            st.enter_context(patched(m.boto3, client=far.client))
            st.enter_context(patched(m, json=Json))
        else:
            import requests
            for how in ('get', 'post', 'put'):
                st.enter_context(patched(requests.Session, **{how: (lambda how: lambda self, url, **k: far.call(self, how, url, k))(how)}))
        res, err = None, None
        if h.symbolic:
            S.TOKENS = tokens = []
            st.callback(lambda: setattr(S, 'TOKENS', None))
        try:
            res = getattr(m, what)(**kw)
        except (PathAbort, AssertionError):
            raise
        except Exception as e:
            err = e
    now = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGINT, far.original)
    h.true('the handler of interrupts is put back', now is far.original)
    h.true('not asked more often than allowed', far.polls <= retries)
    from projectq.backends._exceptions import DeviceOfflineError, DeviceTooSmall
    if what == 'retrieve':
        h.true('nothing is submitted', not far.submitted)
    else:
        fits = bool(far.nq <= far.size)
        first = getattr(far, 'listed', True) if far.lists < 2 else True
        if far.submitted:
            h.true('submitted once', len(far.submitted) == 1)
            h.true('only to a device that is there', far.lists > 1 or first)
            h.true('only what fits', fits)
            if service != 'ibm' or far.final not in faults or len(far.submitted[0]) == 3:
                S.TOKENS = tokens if h.symbolic else None
                try:
                    getattr(far, service + '_job')(far.submitted[0], sent)
                finally:
                    S.TOKENS = None
        elif far.final is None:
            h.true('refused for the reason', type(err) is (DeviceOfflineError if not first else DeviceTooSmall) and not (first and fits), repr(err))
            return
    text = str(err)
    if res is not None:
        h.true('an answer only of a finished job', far.final == 'done', far.final)
        getattr(far, service + '_done')(res)
        h.true('waits between questions', far.slept == [interval] * (far.polls - 1), far.slept)
        return
    h.true('the answer of a finished job is returned', far.final != 'done', repr(err))
    if far.final in ('failed', 'refused', 'interrupt'):
        h.true('a failed job is reported', err is not None)
    if far.final == 'interrupt':
        h.true('the report names the job', ID in text, text)
    if far.final is None:           # never finished, or the device went away
        h.true('waiting in vain is reported', err is not None and ID in text, text)
        gone = isinstance(err, DeviceOfflineError)
        h.true('went offline', (not far.listed) if gone else far.polls == retries, text)
        h.true('waits between questions', far.slept == [interval] * far.polls, far.slept)


def azure(h, what, verbose=False):
    """the workspace's own client waits: the time given and its failure are passed on"""
    import projectq.backends._azure._azure_quantum_client as m
    from projectq.backends._exceptions import DeviceOfflineError, RequestTimeoutError
    n, interval, shots = h.int('retries', 1, 1000), h.int('interval', 1, 100), h.int('runs', 1, 10000)
    there = h.choice('state of the device', ['Available', 'Unavailable', 'Degraded', None])
    late = h.choice('late', [False, True])
    log = []

    class Job:
        id = ID

        def get_results(self, timeout_secs):
            log.append(('wait', timeout_secs))
            if late:
                raise TimeoutError()
            return 'answer'

    class Target:
        current_availability = there

        class workspace:
            @staticmethod
            def get_job(job_id):
                log.append(('job', job_id))
                return Job()

        @staticmethod
        def submit(circuit, num_shots, **kw):
            log.append(('submit', circuit, num_shots, kw))
            return Job()
    res, err = None, None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if what == 'send':
                res = m.send('input', shots, Target(), num_retries=n, interval=interval, verbose=verbose, metadata=dict(a=1))
            else:
                res = m.retrieve(ID, Target(), num_retries=n, interval=interval, verbose=verbose)
        except (DeviceOfflineError, RequestTimeoutError) as e:
            err = e
    if what == 'send' and there != 'Available':
        h.true('nothing is submitted to a device that is not there', not log and isinstance(err, DeviceOfflineError))
        return
    h.true('submits or asks once', len(log) == 2 and log[0][0] == ('submit' if what == 'send' else 'job') and log[1][0] == 'wait', log)
    if what == 'send':
        h.true('the job as given', log[0][1] == 'input' and log[0][3] == dict(metadata=dict(a=1)))
        h.same('number of runs', log[0][2], shots)
    else:
        h.true('asks for the job', log[0][1] == ID)
    h.same('waits as long as asked', log[1][1], n * interval)
    if late:
        h.true('waiting in vain is reported', isinstance(err, RequestTimeoutError) and ID in str(err))
    else:
        h.true('answer', res == 'answer' and err is None)

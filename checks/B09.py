"""The clients of remote devices submit a job once, wait for it, and return nothing but its own answer."""
from vf import clients as C
from vf.runner import Case

BOUNDS = dict(quick='IonQ, AQT, IBM and Braket clients, sending and retrieving: every size of the job and of the device (1-40, IBM 1-4), every sequence of up to 3 states of the job (waiting, done, failed, cancelled), '
                    'devices listed or not at the first and at the next look, one failure (connection, time-out, HTTP 400-503, AWS errors) at every request, an interrupt at every question; results of Braket simulators computed from '
                    'every list of 3 measurements of 2 qubits; Azure client: every number and length of retries, every state of the device, answers in time or not',
              thorough='up to 5 states of the job')
OUTSIDE = 'the servers; more than one failure; passwords typed at a prompt; real time'
NOTE = 'the far end (requests.Session, boto3 clients, the Azure workspace) is a stand-in whose behaviour is free.'
DEVICES = dict(ionq=['qpu.big'], aqt=['aqt_simulator', 'aqt_device'], ibm=['ibmq_qasm_simulator'], braket=['SV1', 'Aspen', 'Ion'])
FAULTS = dict(braket=['AccessDeniedException', 'ValidationException', 'ResourceNotFoundException'])


def cases(tier):
    quick = tier == 'quick'
    K = dict(thin_eq=0, thin_wrap=0, budget=60 if quick else 900, max_paths=60000, max_concretize=200)
    for service, devices in DEVICES.items():
        for dev in devices:
            for what in ('send', 'retrieve'):
                name = '%s/%s/%s' % (service, dev, what)
                kw = dict(service=service, device=dev, what=what)
                for r in (1, 3) if quick else (1, 3, 5):
                    yield Case('%s/%d' % (name, r), C.remote, dict(retries=r, **kw), **K)
                yield Case('%s/faults' % name, C.remote, dict(retries=2, faults=FAULTS.get(service, ['connection', 'timeout', 'http400', 'http401', 'http503']), **kw), **K)
                yield Case('%s/interrupt' % name, C.remote, dict(retries=2, interrupts=True, **kw), **K)
                yield Case('%s/talkative' % name, C.remote, dict(retries=2, verbose=True, **kw), **K)
    for what in ('send', 'retrieve'):
        for v in (False, True):
            yield Case('azure/%s/%d' % (what, v), C.azure, dict(what=what, verbose=v), **K)

"""A stand-in for boto3 whose buckets are a directory, with faults at chosen operations.  Everything stays on disk, so that it
survives the process.  Semantics as of S3: objects appear when an upload is completed, parts but the last have a least size,
lists come in pages sorted by key, errors are exceptions of the client."""
import os, sys, types, json, hashlib, datetime, io

class BotoCoreError(Exception): pass
class ClientError(Exception):
    def __init__(self, code, op): Exception.__init__(self, 'An error occurred (%s) when calling the %s operation' % (code, op)); self.response = {'Error': {'Code': code, 'Message': code}}; self.operation_name = op
class NoSuchKey(ClientError): pass
class NoSuchUpload(ClientError): pass
class IncompleteReadError(BotoCoreError): pass
class EndpointError(BotoCoreError, OSError): pass

class Remote:
    """ the directory; plan: fault at the operation number 'at' """
    def __init__(self, base, page=1000, least=0, plan=None, hook=None):
        self.base, self.page, self.least, self.plan, self.hook, self.n, self.fired = base, page, least, plan or {}, hook, 0, False
        for d in ('o', 'u'): os.makedirs(os.path.join(base, d), exist_ok=True)
    def op(self, name, effect):
        self.n += 1
        k = self.plan.get('kind', 'none') if self.n == self.plan.get('at') else 'none'
        if k != 'none':
            self.fired = True
            with open(os.path.join(self.base, 'fired'), 'w') as f: f.write(name)
        if k == 'error': raise ClientError('InternalError', name)
        if k == 'ioerror': raise EndpointError('connection broken')
        if k == 'kill': os._exit(137)
        if k == 'commit': self.hook()
        r = effect()
        if k == 'after': raise ClientError('RequestTimeout', name)
        if k == 'killafter': os._exit(137)
        return r
    def path(self, key): return os.path.join(self.base, 'o', hashlib.sha256(key.encode()).hexdigest())
    def keys(self):
        res = []
        for f in os.listdir(os.path.join(self.base, 'o')):
            if f.endswith('.key'): res.append(open(os.path.join(self.base, 'o', f)).read())
        return sorted(res, key=lambda k: k.encode())
    def put(self, key, data):
        p = self.path(key)
        with open(p + '.tmp', 'wb') as f: f.write(data)
        os.rename(p + '.tmp', p)
        with open(p + '.key', 'w') as f: f.write(key)
    def get(self, key):
        try: return open(self.path(key), 'rb').read()
        except FileNotFoundError: return None
    def everything(self):
        """ all bytes which are stored anywhere """
        res = []
        for dp, dn, fn in os.walk(self.base):
            for f in fn:
                if not f.endswith('.key') and not f.endswith('.name') and f != 'fired': res.append(open(os.path.join(dp, f), 'rb').read())
        return res

class Body:
    def __init__(self, remote, data):
        self.remote, self.data, self.pos, self.size = remote, data, 0, len(data)
        if remote.plan.get('kind') == 'cut' and remote.n == remote.plan.get('at'):
            remote.fired = True; open(os.path.join(remote.base, 'fired'), 'w').write('cut'); self.data = data[:remote.plan['frac'] * len(data) // 100]
    def read(self, n=None):
        def go():
            d = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
            self.pos += len(d)
            if (n is None or (d == b'' and n)) and self.pos < self.size: raise IncompleteReadError('%d of %d bytes' % (self.pos, self.size))
            return d
        return self.remote.op('read', go)
    def iter_chunks(self, n=1024):
        while True:
            d = self.read(n)
            if d == b'': return
            yield d
    __iter__ = iter_chunks
    def close(self): pass

class Client:
    def __init__(self, remote):
        self.r = remote
        self.exceptions = types.SimpleNamespace(NoSuchKey=NoSuchKey, NoSuchUpload=NoSuchUpload, ClientError=ClientError)
    def get_bucket_versioning(self, Bucket): return self.r.op('get_bucket_versioning', lambda: {'Status': 'Enabled'})
    def put_bucket_versioning(self, **k): return self.r.op('put_bucket_versioning', lambda: {})
    def _list(self, prefix, after, size):
        ks = [k for k in self.r.keys() if k.startswith(prefix) and k.encode() > after.encode()]
        page = ks[:min(size or self.r.page, self.r.page)]
        res = {'IsTruncated': len(ks) > len(page), 'Prefix': prefix, 'MaxKeys': self.r.page, 'Name': 'b'}
        if page: res['Contents'] = [{'Key': k, 'Size': os.path.getsize(self.r.path(k)), 'ETag': 'x', 'LastModified': datetime.datetime(2020, 1, 1), 'StorageClass': 'STANDARD_IA'} for k in page]
        return res
    def list_objects(self, Bucket, Prefix='', Marker='', MaxKeys=None, **k): return self.r.op('list_objects', lambda: self._list(Prefix, Marker, MaxKeys))
    def list_objects_v2(self, Bucket, Prefix='', ContinuationToken='', StartAfter='', MaxKeys=None, **k):
        def go():
            res = self._list(Prefix, ContinuationToken or StartAfter, MaxKeys); res['KeyCount'] = len(res.get('Contents', []))
            if res['IsTruncated']: res['NextContinuationToken'] = res['Contents'][-1]['Key']
            return res
        return self.r.op('list_objects_v2', go)
    def get_paginator(self, name):
        c = self
        class P:
            def paginate(self, Bucket, Prefix='', **k):
                after = ''
                while True:
                    res = c.r.op(name, lambda: c._list(Prefix, after, None)); yield res
                    if not res['IsTruncated']: return
                    after = res['Contents'][-1]['Key']
        return P()
    def head_object(self, Bucket, Key, **k):
        def go():
            d = self.r.get(Key)
            if d is None: raise ClientError('404', 'HeadObject')
            return {'ContentLength': len(d), 'ETag': 'x', 'VersionId': '1', 'Metadata': {}}
        return self.r.op('head_object', go)
    def get_object(self, Bucket, Key, **k):
        def go():
            d = self.r.get(Key)
            if d is None: raise NoSuchKey('NoSuchKey', 'GetObject')
            return {'VersionId': '1', 'Body': Body(self.r, d), 'ContentLength': len(d), 'ContentType': 'binary/octet-stream', 'Metadata': {}, 'LastModified': datetime.datetime(2020, 1, 1), 'ETag': 'x'}
        return self.r.op('get_object', go)
    def put_object(self, Bucket, Key, Body=b'', **k):
        data = Body.encode() if isinstance(Body, str) else Body if isinstance(Body, (bytes, bytearray)) else Body.read()
        def go(): self.r.put(Key, bytes(data)); return {'VersionId': '1', 'ETag': 'x'}
        return self.r.op('put_object', go)
    def delete_object(self, Bucket, Key, **k):
        def go():
            for p in (self.r.path(Key), self.r.path(Key) + '.key'):
                if os.path.exists(p): os.remove(p)
            return {}
        return self.r.op('delete_object', go)
    def _up(self, uid): return os.path.join(self.r.base, 'u', uid)
    def create_multipart_upload(self, Bucket, Key, **k):
        def go():
            uid = 'u%s' % os.urandom(6).hex(); os.makedirs(self._up(uid)); open(self._up(uid) + '.name', 'w').write(Key); return {'UploadId': uid, 'Key': Key, 'Bucket': Bucket}
        return self.r.op('create_multipart_upload', go)
    def upload_part(self, Bucket, Key, PartNumber, UploadId, Body, **k):
        data = Body if isinstance(Body, (bytes, bytearray)) else Body.read()
        def go():
            if not os.path.isdir(self._up(UploadId)): raise NoSuchUpload('NoSuchUpload', 'UploadPart')
            if not 1 <= PartNumber <= 10000: raise ClientError('InvalidArgument', 'UploadPart')
            open(os.path.join(self._up(UploadId), '%05d' % PartNumber), 'wb').write(data); return {'ETag': hashlib.md5(data).hexdigest()}
        return self.r.op('upload_part', go)
    def complete_multipart_upload(self, Bucket, Key, UploadId, MultipartUpload=None, **k):
        def go():
            if not os.path.isdir(self._up(UploadId)): raise NoSuchUpload('NoSuchUpload', 'CompleteMultipartUpload')
            parts = (MultipartUpload or {}).get('Parts', [])
            if not parts: raise ClientError('MalformedXML', 'CompleteMultipartUpload')
            nums = [p['PartNumber'] for p in parts]
            if nums != sorted(set(nums)): raise ClientError('InvalidPartOrder', 'CompleteMultipartUpload')
            data = []
            for p in parts:
                f = os.path.join(self._up(UploadId), '%05d' % p['PartNumber'])
                d = open(f, 'rb').read() if os.path.exists(f) else None
                if d is None or hashlib.md5(d).hexdigest() != p['ETag']: raise ClientError('InvalidPart', 'CompleteMultipartUpload')
                data.append(d)
            if any(len(d) < self.r.least for d in data[:-1]): raise ClientError('EntityTooSmall', 'CompleteMultipartUpload')
            self.r.put(open(self._up(UploadId) + '.name').read(), b''.join(data)); self._drop(UploadId)
            return {'ETag': 'x', 'VersionId': '1'}
        return self.r.op('complete_multipart_upload', go)
    def _drop(self, uid):
        import shutil
        shutil.rmtree(self._up(uid)); os.remove(self._up(uid) + '.name')
    def abort_multipart_upload(self, Bucket, Key, UploadId, **k):
        def go():
            if not os.path.isdir(self._up(UploadId)): raise NoSuchUpload('NoSuchUpload', 'AbortMultipartUpload')
            self._drop(UploadId); return {}
        return self.r.op('abort_multipart_upload', go)
    def list_multipart_uploads(self, Bucket, **k):
        def go():
            us = [f[:-5] for f in sorted(os.listdir(os.path.join(self.r.base, 'u'))) if f.endswith('.name')]
            res = {'IsTruncated': False}
            if us: res['Uploads'] = [{'UploadId': u, 'Key': open(self._up(u) + '.name').read()} for u in us]
            return res
        return self.r.op('list_multipart_uploads', go)

CURRENT = None
def _client(*a, **k): return Client(CURRENT)
def install(remote):
    """ code which imported the stand-in before sees the new remote, too """
    global CURRENT
    CURRENT = remote
    if getattr(sys.modules.get('boto3'), 'stand_in', False): return
    m = types.ModuleType('boto3'); m.stand_in = True; m.client = _client; m.resource = None
    m.session = types.SimpleNamespace(Session=lambda *a, **k: types.SimpleNamespace(client=_client))
    e = types.ModuleType('botocore.exceptions'); e.ClientError, e.BotoCoreError, e.IncompleteReadError = ClientError, BotoCoreError, IncompleteReadError
    b = types.ModuleType('botocore'); b.exceptions = e
    sys.modules.update({'boto3': m, 'botocore': b, 'botocore.exceptions': e})

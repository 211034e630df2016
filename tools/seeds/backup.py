RM = 'bversion/repo_manager.py'; S3 = 'bversion/backup/s3_interface.py'; CR = 'bversion/backup/crypto.py'
PRE = '''
from srv import *
import fakes3, shutil
base = os.environ['SCRATCH']; repo = os.path.join(base, 'srv', 'r'); os.makedirs(repo); remote = os.path.join(base, 'remote')
fakes3.install(None)
def child(f):
    pid = os.fork()
    if pid == 0:
        try: f(); os._exit(0)
        except BaseException as x: sys.stderr.write('%s: %s' % (type(x).__name__, x) + chr(10)); os._exit(3)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
def commit(files, gone=()):
    def f():
        import bversion.server as server
        server.init_server(make_config(os.path.join(base, 'srv'), ['r'], {'u': ['r']})); x = InProc(); h = {'session_token': login(x, 'r', 'u'), 'repository': 'r'}
        hf = os.path.join(repo, 'head'); head = open(hf).read() if os.path.exists(hf) else 'root'
        assert x.request('begin_commit', dict(h, previous_revision=head))[1]['status'] == 'ok'
        for p, b in files: assert x.request('push_file', dict(h, path=p), b)[1]['status'] == 'ok'
        if gone: assert x.request('delete_files', h, json.dumps({'files': json.dumps([{'path': p} for p in gone])}).encode())[1]['status'] == 'ok'
        assert x.request('commit', dict(h, mode='commit', commit_message='m'))[1]['status'] == 'ok'
    assert child(f) == 0
def manage(what, chunk=100, page=1000, password='pw', **plan):
    def f():
        rem = fakes3.Remote(remote, page=page, least=0, plan=plan); fakes3.install(rem)
        from bversion import repo_manager
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        repo_manager.init({'repositories': {'r': {'path': repo, 'backup': True}}, 's3': {'access_key': 'a', 'secret_key': 's', 'bucket': 'b', 'endpoint': 'http://x'}, 'crypto': {'crypt_password': password}, 'chunk_size': chunk})
        getattr(repo_manager, what)()
    return child(f)
def die(x): sys.stderr.write(str(x) + chr(10)); os._exit(1)
def restored():
    shutil.rmtree(repo + '_restore', ignore_errors=True)
    rc = manage('restore')
    if rc: return 'the restore fails'
    n = 0
    for sub in ('index', 'files'):
        for dp, dn, fn in os.walk(os.path.join(repo, sub)):
            for x in fn:
                q = os.path.join(dp, x); o = q.replace(repo, repo + '_restore', 1); n += 1
                if not os.path.exists(o): return x + ' is not restored'
                if open(q, 'rb').read() != open(o, 'rb').read(): return x + ' is restored with other bytes'
    if n and open(repo + '/head').read() != open(repo + '_restore/head').read(): return 'head'
    return ''
'''
def seed(needs, breaks, edits, demo): return dict(property='B01', needs=needs, breaks=breaks, edits=edits, demo=PRE + demo + "\nos._exit(0)\n", files=['../../harness/fakes3.py'])
SEEDS = {
 'b01-marker-in-finally': seed('a run which is interrupted by an error of the remote store', 'the version is marked as stored although objects are missing, no later run stores them',
   [(RM, '''                # ========================================================================
                # Upload things that need uploading
                # ========================================================================
                for it in objects_to_upload:''', '''                # ========================================================================
                # Upload things that need uploading
                # ========================================================================
                objects_to_upload.append({'type' : 'literal', 'path' : 'commits/' + commit_hash, 'value' : 'exists'})
                objects_to_upload.sort(key=lambda it: it['type'] == 'file')
                for it in objects_to_upload:''')],
   '''
commit([('/a', b'first')]); manage('backup')
commit([('/d/b%d' % k, b'content %d' % k) for k in range(6)])
if manage('backup', kind='error', at=45) == 0: die('the run was not interrupted')
if manage('backup') != 0: die('the second run fails')
r = restored()
if r: die(r)
'''),
 'b01-page-lost': seed('more stored versions than the remote store lists at once, and another run', 'a page of the list is skipped: versions are stored again or the run ends with an error',
   [(S3, "                    Marker  = objects_on_remote[-1]['Key'])", "                    Marker  = objects_on_remote[0]['Key'])\n            result['IsTruncated'] = result['IsTruncated'] and len(objects_on_remote) % 2 == 1")],
   '''
for k in range(7): commit([('/a', b'version %d' % k)])
manage('backup', page=2); commit([('/b', b'x')])
manage('backup', page=2)
n = {}
def f():
    import fakes3
    c = fakes3.Client(fakes3.Remote(remote, page=2)); fakes3.install(c.r)
    from bversion.backup import s3_interface
    ks = [x['Key'] for x in s3_interface.list_remote_objects({'client': c, 'bucket': 'b'}, 'r/commits/')]
    assert ks == sorted(k for k in c.r.keys() if k.startswith('r/commits/')), 'the list has %d of %d' % (len(set(ks)), 8)
if child(f): die('list')
'''),
 'b01-top-level': seed('a directory which is in the version twice with other content at another depth', 'directories which have the name of one already seen are left out',
   [(RM, '''                    for dir_hash in it['dirs'].values():
                        recursive_helper(data_store, dir_hash) # pylint: disable=W0640''', '''                    for dir_name, dir_hash in it['dirs'].items():
                        if dir_name in seen: continue
                        seen.add(dir_name)
                        recursive_helper(data_store, dir_hash) # pylint: disable=W0640'''),
    (RM, "                tree_objects = {}\n                def recursive_helper(data_store, tree_object_hash):", "                tree_objects = {}\n                seen = set()\n                def recursive_helper(data_store, tree_object_hash):")],
   '''
commit([('/a/x', b'1'), ('/b/a/y', b'2')]); manage('backup')
r = restored()
if r: die(r)
'''),
 'b01-index-done': seed('a run interrupted between the directories and the files of a version', 'the next run takes the version for complete as its commit object is there',
   [(RM, '''            for item in commits_on_remote:
                commit_hash = item['Key'].split('/')[-1]
                commits.pop(commit_hash)
                commits_order.remove(commit_hash)
''', '''            for item in commits_on_remote + s3_interface.list_remote_objects(s3_conn, repository_name + '/index/'):
                commit_hash = ''.join(item['Key'].split('/')[2:])
                if commit_hash in commits:
                    commits.pop(commit_hash)
                    commits_order.remove(commit_hash)
''')],
   '''
commit([('/a', b'first')]); manage('backup')
commit([('/d/b%d' % k, b'content %d' % k) for k in range(6)])
if manage('backup', kind='kill', at=30) == 0: die('the run was not interrupted')
if manage('backup') != 0: die('the second run fails')
r = restored()
if r: die(r)
'''),
 'b01-partial-finish': seed('an error of the remote store in the middle of a large file', 'the parts so far are kept as the object',
   [(RM, '''    except IOError:
        upload.abort()
        raise
''', '''    except Exception:
        if upload.part_id > 1: upload.finish()
        else: upload.abort()
        raise
''')],
   '''
commit([('/a', b'0123456789' * 100)])
for at in range(5, 80):
    if manage('backup', kind='error', at=at) == 0: break
    shutil.copytree(remote, remote + '2'); manage('backup'); r = restored(); 
    if r: die('after a fault at operation %d: %s' % (at, r))
    shutil.rmtree(remote); shutil.rmtree(remote + '2')
'''),
 'b01-last-chunk': seed('a file whose size is a multiple of the chunk size', 'the restore takes the last full chunk for the end',
   [(S3, '''        res = self.res['body'].read(self.chunk_size + add_bytes)
        return res if res != b'' else None''', '''        res = self.res['body'].read(self.chunk_size + add_bytes)
        self.left -= len(res)
        if self.left <= 0 and len(res) == self.chunk_size + add_bytes: res = b''
        return res if res != b'' else None'''),
    (S3, "        header = self.res['body'].read(header_length)\n", "        header = self.res['body'].read(header_length)\n        self.left = self.res['content_length'] - header_length - 4\n")],
   '''
commit([('/a', b'x' * 1000)]); manage('backup')
r = restored()
if r: die(r)
'''),
 'b01-own-chunk-size': seed('a configuration whose chunk size was changed since the backup', 'the configured chunk size is used to decrypt',
   [(RM, '''    pl.pass_config(lconfig, header)

    while True:''', '''    pl.pass_config(lconfig, header)
    download_stream.chunk_size = lconfig['chunk_size']

    while True:''')],
   '''
commit([('/a', b'x' * 1000)]); manage('backup', chunk=300)
r = restored()
if r: die(r)
'''),
 'b01-salt-of-config': seed('the object with the salt was lost (a new one is made)', 'objects of earlier runs are decrypted with the new salt',
   [(CR, "                                base64.b64decode(decoded_pipeline['format']['encrypt']['S'].encode('utf-8')),\n                                decoded_pipeline['format']['encrypt']['O'],", "                                base64.b64decode(config['crypto']['encrypt_opts']['S'].encode('utf-8')),\n                                decoded_pipeline['format']['encrypt']['O'],")],
   '''
commit([('/a', b'x' * 1000)]); manage('backup')
fakes3.Client(fakes3.Remote(remote)).delete_object('b', 'salt_file')
r = restored()
if r: die(r)
'''),
 'b01-empty-tree-file': seed('a version which has empty files only, next to another file with the same directory', 'the empty file is not made again where it is the only one of its directory',
   [(RM, '''                    make_dirs_if_dont_exist(os.path.dirname(fs_path))

                    # Recreate empty''', '''                    if len(tree['files']) == 1 and fle['hash'] == empty_file_identifier: continue
                    make_dirs_if_dont_exist(os.path.dirname(fs_path))

                    # Recreate empty''')],
   '''
commit([('/a/e', b''), ('/x', b'x')]); manage('backup')
r = restored()
if r: die(r)
'''),
 'b01-short-plain': seed('a small object', 'objects smaller than the header are stored without encryption',
   [(RM, '''    #-----
    upload = s3_interface.streaming_upload()''', '''    start = file_handle.read(7); file_handle.seek(0)
    if len(start) < 7: pipeline_configuration['format'] = {}
    #-----
    upload = s3_interface.streaming_upload()'''), ],
   '''
commit([('/a', b'pin 12')]); manage('backup')
if any(b'pin 12' in d for d in fakes3.Remote(remote).everything()): die('stored in the clear')
'''),
 'b01-files-of-first': seed('a file with the content of another file whose storing was interrupted', 'the list of stored files is taken at the start of the run only, and filled before the files are stored',
   [(RM, '''                for item in files_on_remote:
                    file_hash = ''.join(item['Key'].split('/')[-2:])
                    if file_hash in file_objects:
                        file_objects.pop(file_hash)
''', '''                for item in files_on_remote:
                    file_hash = ''.join(item['Key'].split('/')[-2:])
                    if file_hash[:60] in [x[:60] for x in file_objects]:
                        file_objects.pop(file_hash, None)
                for item in s3_conn['client'].list_multipart_uploads(Bucket=s3_conn['bucket']).get('Uploads', []):
                    file_objects.pop(''.join(item['Key'].split('/')[-2:]), None)
'''),
    (RM, "    s3_interface.delete_failed_uploads(s3_conn)\n", "")],
   '''
commit([('/a', b'0123456789' * 100)])
for at in range(5, 80):
    if manage('backup', kind='kill', at=at) == 0: break
    manage('backup'); r = restored(); 
    if r: die('after a death at operation %d: %s' % (at, r))
    shutil.rmtree(remote)
'''),
}

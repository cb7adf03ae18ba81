#!/bin/bash
# Makes harness/core/fixtures/algs.json: leaf certificates for keys of every kind under one
# authority, and signatures of one key-exchange message by each algorithm (needs openssl).
set -e
out=$(cd "$(dirname "$0")/.." && pwd)/harness/core/fixtures; mkdir -p $out
d=$(mktemp -d); cd $d
openssl ecparam -name prime256v1 -genkey -noout -out ca.key
openssl req -x509 -new -key ca.key -subj /CN=ca -days 20000 -out ca.pem -addext basicConstraints=critical,CA:TRUE 2>/dev/null
openssl ecparam -name prime256v1 -genkey -noout -out p256.key
openssl ecparam -name prime256v1 -genkey -noout -out p256b.key
openssl ecparam -name secp384r1 -genkey -noout -out p384.key
openssl ecparam -name secp521r1 -genkey -noout -out p521.key
openssl genpkey -algorithm ed25519 -out ed25519.key 2>/dev/null
openssl genrsa -out rsa.key 2048 2>/dev/null
openssl genrsa -out rsa1024.key 1024 2>/dev/null
python3 - <<'P'
key=bytes([4]+[(7*i)%251 for i in range(64)])
open('m0','wb').write(bytes([11])*32+bytes([22])*32+bytes([3,0,23,65])+key)
open('m1','wb').write(bytes([11])*32+bytes([22])*31+bytes([23])+bytes([3,0,23,65])+key)
P
printf 'subjectAltName=DNS:a.x.test\n' > ext
for k in p256 p256b p384 p521 ed25519 rsa rsa1024; do
  openssl req -new -key $k.key -subj /CN=$k -out $k.csr 2>/dev/null
  openssl x509 -req -in $k.csr -CA ca.pem -CAkey ca.key -CAcreateserial -days 19000 -extfile ext -outform DER -out $k.der 2>/dev/null
done
openssl x509 -in ca.pem -outform DER -out ca.der
for m in m0 m1; do
 for k in p256 p256b p384 p521; do for h in sha256 sha384 sha512; do openssl dgst -$h -sign $k.key -out $k.ecdsa-$h.$m $m; done; done
 openssl pkeyutl -sign -inkey ed25519.key -rawin -in $m -out ed25519.ed25519.$m
 for k in rsa rsa1024; do for h in sha256 sha384 sha512; do
  openssl dgst -$h -sign $k.key -out $k.pkcs1-$h.$m $m
  openssl dgst -$h -sign $k.key -sigopt rsa_padding_mode:pss -sigopt rsa_pss_saltlen:-1 -out $k.pss-$h.$m $m || true
 done; done
done
python3 - $out/algs.json <<'P'
import glob,json,sys,os
o={"ca":open('ca.der','rb').read().hex(),"certs":{},"sigs":[]}
for f in sorted(glob.glob('*.der')):
    if f!='ca.der': o["certs"][f[:-4]]=open(f,'rb').read().hex()
for f in sorted(glob.glob('*.m0')+glob.glob('*.m1')):
    b=open(f,'rb').read()
    if b:
        k,a,m=f.split('.'); o["sigs"].append({"key":k,"alg":a,"msg":int(m[1]),"sig":b.hex()})
json.dump(o,open(sys.argv[1],'w'),indent=0)
print(len(o["certs"]),len(o["sigs"]))
P
cd /; rm -r $d

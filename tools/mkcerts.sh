#!/bin/bash
# Makes the certificates of harness/certs once (they are committed; the keys guard nothing).
set -e
out=$(cd "$(dirname "$0")/../harness/certs" && pwd)
work=$(mktemp -d /tmp/mkcerts.XXXXXX); cd "$work"
cat > ca.cnf <<'C'
[ca]
default_ca = d
[d]
database = index.txt
serial = serial
new_certs_dir = .
default_md = sha256
policy = p
email_in_dn = no
unique_subject = no
copy_extensions = none
[p]
commonName = supplied
[root]
basicConstraints = critical,CA:TRUE
keyUsage = critical,keyCertSign,cRLSign
subjectKeyIdentifier = hash
C
reset() { : > index.txt; echo 1000 > serial; }
key() { openssl ecparam -name prime256v1 -genkey -noout -out $1.key 2>/dev/null; }
root() { key $1; openssl req -new -key $1.key -subj "/CN=$2" -out $1.csr; reset
  openssl ca -batch -config ca.cnf -selfsign -keyfile $1.key -in $1.csr -out $1.pem -extensions root -startdate 20000101000000Z -enddate 29990101000000Z -notext 2>/dev/null; }
# sign NAME ISSUER START END EXTENSIONS
sign() { [ -f $1.key ] || key $1; openssl req -new -key $1.key -subj "/CN=$1" -out $1.csr
  printf "%b" "[x]\n$5\n" > $1.cnf; cat ca.cnf $1.cnf > all.cnf; reset
  openssl ca -batch -config all.cnf -cert $2.pem -keyfile $2.key -in $1.csr -out $1.pem -extensions x -startdate $3 -enddate $4 -notext 2>/dev/null; }
root ca "am test root"; root other "am test other root"; root twin "am test root"
leaf="basicConstraints=critical,CA:FALSE\nkeyUsage=critical,digitalSignature\nextendedKeyUsage=serverAuth"
A=20000101000000Z; Z=29990101000000Z
names="DNS:a.test,DNS:b.example.test,DNS:localhost,DNS:xn--bcher-kva.test,DNS:long-name-0123456789.sub.domain.example.test,IP:127.0.0.1,IP:203.0.113.7"
sign good ca $A $Z "$leaf\nsubjectAltName=$names"
sign wild ca $A $Z "$leaf\nsubjectAltName=DNS:*.wild.test"
sign any ca $A $Z "$leaf\nsubjectAltName=DNS:*.any.test,IP:10.1.2.3,IP:10.1.2.4,IP:198.51.100.9,IP:203.0.113.250,IP:127.0.0.1"
sign iptext ca $A $Z "$leaf\nsubjectAltName=DNS:127.0.0.1.test,IP:203.0.113.99"
sign expired ca $A 20100101000000Z "$leaf\nsubjectAltName=$names"
sign future ca 29900101000000Z $Z "$leaf\nsubjectAltName=$names"
sign untrusted other $A $Z "$leaf\nsubjectAltName=$names"
sign forged twin $A $Z "$leaf\nsubjectAltName=$names"
sign inter ca $A $Z "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\nsubjectKeyIdentifier=hash"
sign viainter inter $A $Z "$leaf\nsubjectAltName=$names"
sign oldinter ca $A 20100101000000Z "basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\nsubjectKeyIdentifier=hash"
sign viaold oldinter $A $Z "$leaf\nsubjectAltName=$names"
# issued by a certificate that is not an authority
sign vialeaf good $A $Z "$leaf\nsubjectAltName=$names"
sign client ca $A $Z "basicConstraints=critical,CA:FALSE\nextendedKeyUsage=clientAuth\nsubjectAltName=$names"
# self-signed
key selfsigned; openssl req -new -key selfsigned.key -subj "/CN=a.test" -out selfsigned.csr
printf "%b" "[x]\n$leaf\nsubjectAltName=$names\n" > s.cnf; cat ca.cnf s.cnf > all.cnf; reset
openssl ca -batch -config all.cnf -selfsign -keyfile selfsigned.key -in selfsigned.csr -out selfsigned.pem -extensions x -startdate $A -enddate $Z -notext 2>/dev/null
for f in good wild any iptext expired future untrusted forged inter viainter oldinter viaold vialeaf client selfsigned other twin; do
  openssl x509 -in $f.pem -outform DER -out "$out/$f.der"
  openssl pkcs8 -topk8 -nocrypt -in $f.key -outform DER -out "$out/$f.key"
done
rm "$out"/{inter,oldinter,other,twin}.key
cp ca.pem "$out/ca.pem"
rm -r "$work"

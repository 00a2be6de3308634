#!/bin/bash
# Generates the test certificates of check C23 into mc/tls (committed; run again only to change them).
set -e
out=$(cd "$(dirname "$0")/../mc/tls" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cd "$w"
touch index.txt
echo 1000 > serial
cat > conf <<'C'
[ca]
default_ca = d
[d]
database = index.txt
serial = serial
new_certs_dir = .
default_md = sha256
policy = p
unique_subject = no
copy_extensions = none
[p]
commonName = supplied
[req]
distinguished_name = dn
[dn]
C
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"; }
# issue NAME CN ISSUER START END EXT...
issue() {
    local n=$1 cn=$2 iss=$3 s=$4 e=$5; shift 5
    key $n
    openssl req -new -key $n.key -subj "/CN=$cn" -config conf -out $n.csr
    { echo '[x]'; printf '%s\n' "$@"; } > ext
    cat conf ext > full
    local opt="-cert $iss.pem -keyfile $iss.key"
    [ "$iss" = self ] && opt="-selfsign -keyfile $n.key"
    openssl ca -batch -notext -config full -extensions x $opt -startdate $s -enddate $e -in $n.csr -out $n.pem 2>err || { cat err; exit 1; }
}
A=20000101000000Z B=21000101000000Z
CA='basicConstraints=critical,CA:true'
KI='subjectKeyIdentifier=hash'
LEAF='basicConstraints=CA:false'
SRV='extendedKeyUsage=serverAuth'
CLI='extendedKeyUsage=clientAuth'
HERE='subjectAltName=IP:127.0.0.1,DNS:localhost'
issue ca 'test CA' self $A $B "$CA" "$KI"
issue other 'other CA' self $A $B "$CA" "$KI"
issue inter 'intermediate' ca $A $B "$CA" "$KI"
issue good good ca $A $B "$LEAF" "$SRV" "$HERE"
issue ip ip ca $A $B "$LEAF" "$SRV" 'subjectAltName=IP:127.0.0.1'
issue dns dns ca $A $B "$LEAF" "$SRV" 'subjectAltName=DNS:localhost'
issue host host ca $A $B "$LEAF" "$SRV" 'subjectAltName=DNS:device.example,IP:10.0.0.9'
issue cn 127.0.0.1 ca $A $B "$LEAF" "$SRV"
issue expired expired ca $A 20010101000000Z "$LEAF" "$SRV" "$HERE"
issue future future ca 20990101000000Z $B "$LEAF" "$SRV" "$HERE"
issue self self self $A $B "$LEAF" "$SRV" "$HERE"
issue foreign foreign other $A $B "$LEAF" "$SRV" "$HERE"
issue purpose purpose ca $A $B "$LEAF" "$CLI" "$HERE"
issue chain chain inter $A $B "$LEAF" "$SRV" "$HERE"
cp chain.pem nochain.pem; cp chain.key nochain.key
cat inter.pem >> chain.pem
issue client client ca $A $B "$LEAF" "$CLI"
issue client2 client2 ca $A $B "$LEAF" "$CLI"
issue stranger stranger other $A $B "$LEAF" "$CLI"
for n in client client2 stranger; do cat $n.pem $n.key > $n.both.pem; done
cat other.pem ca.pem > bundle.pem
rm -f ca.key other.key inter.key [0-9]*.pem
cp ./*.pem ./*.key "$out"

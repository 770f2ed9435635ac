# Calls the Perl module as told on standard input (see checks/modules.py).
use strict;
use Net::NSCAng::Client;

$| = 1;
my %obj;
my @files;
for (1 .. ($ENV{MOD_FILES} || 0)) { open(my $f, "<", "/dev/null") or die "cannot open: $!"; push @files, $f }
sub dec { my $x = shift; return $x =~ /^h(.*)/ ? pack("H*", $1) : substr($x, 1) }
while (my $l = <STDIN>) {
    chomp $l;
    my ($op, @args) = split / /, $l;
    ($op, my $id) = split /:/, $op;
    my (@pos, %kw);
    for (@args) {
        my ($k, $v) = split /=/, $_, 2;
        if ($k ne "") { $kw{$k} = dec($v) } else { push @pos, dec($v) }
    }
    my $r = eval {
        if ($op eq "new") { delete $obj{$id}; $obj{$id} = Net::NSCAng::Client->new(@pos, %kw) }
        elsif ($op eq "host") { $obj{$id}->host_result(@pos, %kw) }
        elsif ($op eq "svc") { $obj{$id}->svc_result(@pos, %kw) }
        elsif ($op eq "cmd") { $obj{$id}->command(@pos) }
        elsif ($op eq "del") { delete $obj{$id} }
        "ok";
    };
    $r = "err " . unpack("H*", $@) unless defined $r;
    print "$r\n";
}

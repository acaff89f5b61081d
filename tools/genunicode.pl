#!/usr/bin/perl
# writes spec/data/unicode.json: the Unicode 15.0 facts the specification refers to (from Perl's own copy of the Unicode database).
# Run by hand only; its output is committed.
use strict; use Unicode::UCD qw(prop_invlist prop_invmap charinfo);
binmode STDOUT;
sub ranges { my ($p) = @_; my @l = prop_invlist($p); my @r; while (@l) { my $a = shift @l; my $b = @l ? (shift @l) - 1 : 0x10FFFF; push @r, "[$a,$b]"; } return "[" . join(",", @r) . "]"; }
my @out;
for my $gc (qw(Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn)) { push @out, "\"$gc\":" . ranges("gc=$gc"); }
my %p = (whitespace => "White_Space=Y", join_control => "Join_Control=Y", alphabetic => "Alphabetic=Y", uppercase => "Uppercase=Y", lowercase => "Lowercase=Y", xid_start => "XID_Start=Y", xid_continue => "XID_Continue=Y");
for my $n (sort keys %p) { push @out, "\"$n\":" . ranges($p{$n}); }
# simple case folding
my ($l, $m, $f, $d) = prop_invmap("Simple_Case_Folding");
my @fold;
for my $i (0 .. $#$l) { next if $m->[$i] eq "0" && $f =~ /a/; my $hi = $i < $#$l ? $l->[$i+1] - 1 : 0x10FFFF; last if $l->[$i] > 0x10FFFF;
  next if $m->[$i] == $d; push @fold, "[$l->[$i],$hi,$m->[$i]]"; }
push @out, "\"fold\":[" . join(",", @fold) . "]";
print "{" . join(",\n", @out) . "}\n";

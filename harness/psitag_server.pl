# Answers requests about tag files with the scripts of the repository: one request per line on
# standard input, answers as "<length>\n<bytes>" on standard output.
# The first byte of an answer is O (done), E (the script died) or H (no end).
use strict;
use warnings;
my $scripts = shift @ARGV;
open(my $saved, ">&", \*STDOUT) or die;
open(STDOUT, ">", "/dev/null") or die;
open(STDERR, ">", "/dev/null") or die;
binmode $saved;
require "$scripts/PsiTag.pm";
require "$scripts/NewMake.pm";

sub answer
{
	my ($s) = @_;
	my $out = length($s)."\n".$s;
	my $done = 0;
	while ($done < length($out)) {
		my $n = syswrite($saved, $out, length($out) - $done, $done);
		exit(1) unless defined($n);
		$done += $n;
	}
}

sub packed { my ($s) = @_; return length($s)."\n".$s; }

sub handle
{
	my ($cmd, @w) = @_;
	if ($cmd eq "tags") {
		my %tags;
		PsiTag::main(\%tags, $_) foreach (@w);
		my $s = "";
		foreach my $k (sort keys %tags) {
			$s .= packed($k).packed($tags{$k}->{"content"});
		}
		return $s;
	}
	if ($cmd eq "conf") {
		my $flavor = shift @w;
		$flavor =~ s/%20/ /g;
		return NewMake::getConfigContent(\@w, $flavor);
	}
	if ($cmd eq "list") {
		my ($basic, $opt, $env) = @w;
		local $ENV{"PSITAG_CONFIG_USER"};
		if ($env eq "-") { delete $ENV{"PSITAG_CONFIG_USER"}; } else { $ENV{"PSITAG_CONFIG_USER"} = $env; }
		my @l = NewMake::configFilesList($basic, $opt eq "-" ? undef : $opt);
		return join("", map { "$_\n" } @l);
	}
	if ($cmd eq "make") {
		my ($spec, $out) = @w;
		my (%args, @drivers);
		open(my $fh, "<", $spec) or die;
		while (<$fh>) {
			chomp;
			my @f = split /\|/, $_, -1;
			if ($f[0] eq "arg") { $args{$f[1]} = $f[2]; }
			if ($f[0] eq "old") { push @drivers, $f[1]; }
			if ($f[0] eq "new") {
				my %d = (name => $f[1]);
				$d{"aux"} = $f[2] if ($f[2] ne "");
				$d{"dotos"} = $f[3] if ($f[3] ne "");
				$d{"libs"} = $f[4] if ($f[4] ne "none");
				push @drivers, \%d;
			}
		}
		close($fh);
		$args{"configFiles"} = [ $args{"configFiles"} ];
		open(my $o, ">", $out) or die;
		NewMake::main($o, \%args, \@drivers);
		close($o);
		return "";
	}
	die "unknown command\n";
}

while (my $line = <STDIN>) {
	chomp $line;
	my @w = split / /, $line;
	my $res;
	eval {
		local $SIG{ALRM} = sub { die "HANG\n" };
		alarm(8);
		$res = handle(@w);
		alarm(0);
		1;
	} or do {
		alarm(0);
		my $e = $@;
		answer(($e =~ /^HANG/) ? "H" : "E$e");
		next;
	};
	answer("O$res");
}
